"""C15 driver: amplitudes recovered from fields on a grid."""

import jax.numpy as jnp
import numpy as np

import lib
import mats
import obs
import planar
import stacks
from fmmax import basis, fields, sources

SC = 10**7
CELL = {"c33": (3, 3), "c31": (3, 1), "c13": (1, 3), "c53": (5, 3), "c11": (1, 1), "c42": (4, 2)}


def orders(name):
    n1, n2 = CELL[name]
    return [[i - (n1 - 1) // 2, j - (n2 - 1) // 2] for i in range(n1) for j in range(n2)]


def fp(x, key):
    return obs.fingerprint(x, 3, key, SC)


def fine(kind, seed, shape):
    api, eps, mu = mats.material(kind, seed, shape)
    return api, eps, mu


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 15])
    uv = stacks.LATTICES[int(rng.integers(0, len(stacks.LATTICES)))]
    m = s["num"]
    if s["mode"] == "round":
        coeffs, pshape = stacks.EXPS[s["exp"]]
        exp = lib.expansion(coeffs)
        batch = tuple(s["batch"])
        wl = np.round(rng.uniform(0.6, 1.6, size=batch), 3)
        k = np.round(rng.uniform(-0.9, 0.9, size=(batch if s["kb"] else ()) + (2,)), 3)
        api, eps, mu = mats.material(s["kind"], s["seed"] * 31 + s["sid"], pshape)
        sol = mats.solve(api, eps, mu, wl, k, uv, exp, "fft")
        n = len(coeffs)
        a, b = stacks.amplitudes(rng, n, m, batch), stacks.amplitudes(rng, n, m, batch)
        E, H = fields.fields_from_wave_amplitudes(forward_amplitude=jnp.asarray(a), backward_amplitude=jnp.asarray(b), layer_solve_result=sol)
        span = np.ptp(np.asarray(coeffs), axis=0) + 1
        nx, ny = int(span[0] + s["extra"]), int(span[1] + (s["extra"] + 1) % 3)
        G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
        i, j = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
        r = i[..., None] * np.array(uv[0]) + j[..., None] * np.array(uv[1])
        kv = np.broadcast_to(k, batch + (2,))[..., None, :] + np.asarray(coeffs) @ G
        ph = np.exp(1j * np.einsum("...gd,xyd->...xyg", kv, r))
        real = lambda c: np.einsum("...xyg,...gm->...xym", ph, np.asarray(c))
        if np.linalg.cond(np.asarray(fields.field_conversion_matrix(sol))).max() > 1e6:
            return
        if s["form"] == 0:
            fl = [real(c) for c in (E[0], E[1], H[0], H[1])]
        else:  # the library's own sampling
            g = fields.fields_on_grid(electric_field=E, magnetic_field=H, layer_solve_result=sol, shape=(nx, ny), num_unit_cells=(1, 1))
            fl = [g[0][0], g[0][1], g[1][0], g[1][1]]
        # Grids must resolve differences of orders for this library's transform.
        d = 2 * np.abs(np.asarray(coeffs)).max(axis=0) + 1
        if nx < d[0] or ny < d[1]:
            return
        a2, b2 = sources.amplitudes_for_fields(ex=jnp.asarray(fl[0]), ey=jnp.asarray(fl[1]), hx=jnp.asarray(fl[2]), hy=jnp.asarray(fl[3]),
                                               layer_solve_result=sol)
        yield {"ev": "round", "a": fp(a2, 1), "aref": fp(a, 1), "b": fp(b2, 2), "bref": fp(b, 2),
               "ashape": obs.shape(a2), "bshape": obs.shape(b2), "want": obs.shape(a)}
        return
    # Brillouin zone grid.
    n1, n2 = CELL[s["cell"]]
    coeffs = orders(s["cell"])
    if s["cell"] == "c42":
        coeffs = [[0, 0], [1, 0], [-1, 0]]
    exp = lib.expansion(coeffs)
    n = len(coeffs)
    N1, N2 = s["grid"]
    kbz = np.asarray(basis.brillouin_zone_in_plane_wavevector(brillouin_grid_shape=(N1, N2), primitive_lattice_vectors=lib.lattice(uv)))
    lay = s["layout"]
    wl = float(np.round(rng.uniform(0.7, 1.6), 3))
    if lay == "plain":
        k, w, axes, batch = kbz, wl, (0, 1), (N1, N2)
    elif lay == "swapped":
        k, w, axes, batch = np.swapaxes(kbz, 0, 1), wl, (1, 0), (N2, N1)
    elif lay == "lead":
        w, k, axes, batch = np.array([wl, wl * 1.07]).reshape(2, 1, 1), kbz, (1, 2), (2, N1, N2)
    elif lay == "mid":
        w, k, axes, batch = np.array([wl, wl * 1.07]).reshape(2, 1), kbz[:, None], (0, 2), (N1, 2, N2)
    else:
        w, k, axes, batch = np.array([wl, wl * 1.07]), kbz[:, :, None], (0, 1), (N1, N2, 2)
    shape = tuple(int(2 * 2 * max(abs(c[d]) for c in coeffs) + 3) for d in (0, 1))
    api, eps, mu = mats.material(s["kind"], s["seed"] * 37 + s["sid"], shape)
    sol = mats.solve(api, eps, mu, w, k, uv, exp, "fft")
    if np.linalg.cond(np.asarray(fields.field_conversion_matrix(sol))).max() > 1e5:
        return
    lead = {"none": (), "ones": (1,) * len(batch), "full": batch}[s["lead"]]
    if s["lead"] == "full":  # the field may differ along the axes that are not of the grid
        lead = tuple(1 if i in axes else d for i, d in enumerate(batch))
    if s["lead"] != "none" and s["neg"]:
        axes = tuple(x - (len(batch) + 3) for x in axes)
    sh = lead + (N1 * n1, N2 * n2, m)
    F = [rng.uniform(-1, 1, size=sh) + 1j * rng.uniform(-1, 1, size=sh) for _ in range(4)]
    a, b = sources.amplitudes_for_fields(ex=jnp.asarray(F[0]), ey=jnp.asarray(F[1]), hx=jnp.asarray(F[2]), hy=jnp.asarray(F[3]),
                                         layer_solve_result=sol, brillouin_grid_axes=axes)
    want = list(batch) + [2 * n, m]
    if list(a.shape) != want:
        yield {"ev": "total", "sum": [], "want": [], "ashape": obs.shape(a), "wantshape": want}
        return
    E, H = fields.fields_from_wave_amplitudes(forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)
    C = [np.asarray(x) for x in (E[0], E[1], H[0], H[1])]
    gx = tuple(x % (len(batch) + 3) for x in axes)
    cx = planar.cx
    for _ in range(4):
        ix = tuple(int(rng.integers(0, d)) for d in batch)
        o, c, col = int(rng.integers(0, n)), int(rng.integers(0, 4)), int(rng.integers(0, m))
        fld = np.broadcast_to(F[c], batch + (N1 * n1, N2 * n2, m))[ix][..., col]
        v = C[c][ix + (o, col)]
        yield {"ev": "bloch", "N1": N1, "N2": N2, "n1": n1, "n2": n2, "s1": ix[gx[0]], "s2": ix[gx[1]],
               "g1": coeffs[o][0], "g2": coeffs[o][1], "f": [cx(z) for z in fld.ravel()],
               "obs": cx(v) if np.isfinite(v) and abs(v) < 400 else [obs.NAN, obs.NAN]}
    if n == n1 * n2:
        G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
        i, j = np.meshgrid(np.arange(N1 * n1) / n1, np.arange(N2 * n2) / n2, indexing="ij")
        r = i[..., None] * np.array(uv[0]) + j[..., None] * np.array(uv[1])
        kv = np.broadcast_to(k, batch + (2,))[..., None, :] + np.asarray(coeffs) @ G
        ph = np.exp(1j * np.einsum("...gd,xyd->...xyg", kv, r))
        tot = [np.einsum("...xyg,...gm->...xym", ph, x).sum(axis=gx) for x in C]
        ref = [np.broadcast_to(f, batch + f.shape[-3:]).mean(axis=gx) * (N1 * N2) for f in F]
        sc = max(1.0, float(N1 * N2))
        yield {"ev": "total", "sum": fp(np.stack(tot) / sc, 5), "want": fp(np.stack(ref) / sc, 5), "ashape": obs.shape(a), "wantshape": want}

"""C12 driver: fields on grids, on coordinates and in 3D."""

import jax.numpy as jnp
import numpy as np

import lib
import mats
import obs
import planar
import stacks
from fmmax import fields

D = 20
UV = [[[1000000, 0], [0, 1000000]], [[1100000, 0], [250000, 900000]], [[800000, 300000], [-400000, 1200000]], [[0, 1050000], [950000, 100000]]]


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 12])
    coeffs, pshape = stacks.EXPS[s["exp"]]
    exp = lib.expansion(coeffs)
    n, m = len(coeffs), s["num"]
    uvi = UV[int(rng.integers(0, len(UV)))]
    uv = np.array(uvi) / 1e6
    G = 2 * np.pi * np.linalg.inv(uv).T
    batch = tuple(s["batch"])
    kb = batch if s["kb"] else ()
    p = rng.integers(-9, 10, size=kb + (2,))
    k = p / D @ G
    wl = np.round(rng.uniform(0.6, 1.6, size=batch), 3)
    mode = s["mode"]
    L = 1 if mode in ("grid", "coords", "layer", "layerc") else len(s["znum"])
    znum = [s["znum"][0]] if L == 1 else list(s["znum"])
    if L == 1 and znum[0] == 0:
        znum = [1]
    if sum(znum) == 0:
        return
    sols, ths = [], []
    for i in range(L):
        api, eps, mu = mats.material(s["kind"] if i % 2 == 0 else "uniform", s["seed"] * 41 + s["sid"] * 5 + i, pshape)
        sols.append(mats.solve(api, eps, mu, wl, k, uv, exp, "fft"))
        ths.append(float(np.round(rng.uniform(0.05, 0.5), 4)))
    amp = lambda: stacks.amplitudes(rng, n, m, batch)
    ab = [(amp(), amp()) for _ in range(L)]
    need = 2 * np.abs(np.asarray(coeffs)).max(axis=0) + 1
    shape = (int(need[0] + s["extra"][0]), int(need[1] + s["extra"][1]))
    cells = tuple(s["cells"])
    J = jnp.asarray
    onc = mode in ("coords", "layerc", "stackc")
    if onc:
        csh = tuple(s["csh"])
        fi = rng.integers(-60, 100, size=csh + (2,))
        fr = fi / 40.0
        X = fr[..., 0] * uv[0][0] + fr[..., 1] * uv[1][0]
        Y = fr[..., 0] * uv[0][1] + fr[..., 1] * uv[1][1]
        xy = dict(x=J(X), y=J(Y))
        plane = csh
    else:
        plane = (shape[0] * cells[0], shape[1] * cells[1])
    grid = dict(grid_shape=shape, num_unit_cells=cells)
    jab = [(J(a), J(b)) for a, b in ab]
    jth = [J(t) for t in ths]
    if mode in ("grid", "coords"):
        E, H = fields.fields_from_wave_amplitudes(forward_amplitude=jab[0][0], backward_amplitude=jab[0][1], layer_solve_result=sols[0])
        fn = fields.fields_on_coordinates if onc else fields.fields_on_grid
        kw = xy if onc else dict(shape=shape, num_unit_cells=cells)
        eg, hg, (x, y) = fn(electric_field=E, magnetic_field=H, layer_solve_result=sols[0], **kw)
        eg, hg = np.stack([np.asarray(c) for c in eg]), np.stack([np.asarray(c) for c in hg])
        want = [3] + list(batch) + list(plane) + [m]
        z, zwant, nz = np.zeros(0), [0], None
    elif mode in ("layer", "layerc"):
        fn = fields.layer_fields_3d_on_coordinates if onc else fields.layer_fields_3d
        eg, hg, (x, y, z) = fn(forward_amplitude_start=jab[0][0], backward_amplitude_end=jab[0][1], layer_solve_result=sols[0],
                               layer_thickness=jth[0], layer_znum=znum[0], **(xy if onc else grid))
        nz = znum[0]
    elif mode in ("stack", "stackc"):
        fn = fields.stack_fields_3d_on_coordinates if onc else fields.stack_fields_3d
        eg, hg, (x, y, z) = fn(amplitudes_interior=jab, layer_solve_results=sols, layer_thicknesses=jth, layer_znum=znum,
                               **(xy if onc else grid))
        nz = sum(znum)
    else:
        g = float(np.round(rng.uniform(0.11, 0.19), 4))
        uvn = [float(np.linalg.norm(v)) for v in uv]
        if any(abs((t / g) % 1 - 0.5) < 0.02 for t in ths + uvn) or not any(t > 0.6 * g for t in ths):
            return
        # Coarse automatic grids must still resolve the expansion.
        if min(int(round(uvn[0] / g)), int(round(uvn[1] / g))) < max(need):
            return
        eg, hg, (x, y, z) = fields.stack_fields_3d_auto_grid(
            amplitudes_interior=jab, layer_solve_results=sols, layer_thicknesses=jth, grid_spacing=g, num_unit_cells=cells)
        i6 = lambda v: int(round(v * 1e6))
        sx = np.shape(x)
        yield {"ev": "auto", "g": i6(g), "lu": i6(uvn[0]), "lv": i6(uvn[1]), "nu": sx[-2] // cells[0], "nv": sx[-1] // cells[1],
               "depths": [i6(t) for t in ths], "z": obs.fix(z, 10**6)}
        shape = (sx[-2] // cells[0], sx[-1] // cells[1])
        plane = sx[-2:]
        nz = len(z)
        znum = [int(round(t / g)) for t in ths]
        if sum(znum) != nz:
            return
    eg, hg, x, y, z = (np.asarray(v) for v in (eg, hg, x, y, z))
    # Coordinates carry the (unit) batch axes of the lattice vectors.
    lead = lambda v: v.reshape(v.shape[v.ndim - len(plane):]) if all(d == 1 for d in v.shape[:v.ndim - len(plane)]) else v
    x, y = lead(x), lead(y)
    if nz is not None:
        want = [3] + list(batch) + list(plane) + [nz, m]
        zwant = [nz]
        if mode != "auto":
            yield {"ev": "axis", "nums": znum, "depths": [int(round(t * 1e6)) for t in ths], "z": obs.fix(z, 10**6)}
    yield {"ev": "layout", "eshape": obs.shape(eg), "hshape": obs.shape(hg), "want": want, "xshape": obs.shape(x), "yshape": obs.shape(y),
           "xwant": list(plane), "zshape": obs.shape(z), "zwant": zwant}
    if obs.shape(eg) != want or obs.shape(hg) != want or obs.shape(x) != list(plane):
        return
    for _ in range(5):
        ix = tuple(int(rng.integers(0, d)) for d in batch)
        pt = tuple(int(rng.integers(0, d)) for d in plane)
        col, comp, tr = int(rng.integers(0, m)), int(rng.integers(0, 3)), int(rng.integers(0, 2))
        if nz is None:
            li, dz, idx = 0, None, (comp,) + ix + pt + (col,)
        else:
            zi = int(rng.integers(0, nz))
            li, rest = 0, zi
            while rest >= znum[li]:
                rest -= znum[li]
                li += 1
            dz = 0.0 if znum[li] == 1 else ths[li] * rest / (znum[li] - 1)
            idx = (comp,) + ix + pt + (zi, col)
        q = np.asarray(sols[li].eigenvalues)
        q = np.broadcast_to(q, batch + q.shape[-1:])[ix][:, None]
        a, b = ab[li][0], ab[li][1]
        if dz is not None:
            qq = np.asarray(sols[li].eigenvalues)[..., None]
            a, b = a * np.exp(1j * qq * dz), b * np.exp(1j * qq * (ths[li] - dz))
        Ef, Hf = fields.fields_from_wave_amplitudes(forward_amplitude=J(a), backward_amplitude=J(b), layer_solve_result=sols[li])
        cf = np.asarray((Ef, Hf)[tr][comp])
        cf = np.broadcast_to(cf, batch + cf.shape[-2:])[ix][:, col]
        val = (eg, hg)[tr][idx]
        sc = max(1.0, float(np.abs(cf).max()))
        cf, val = cf / sc, val / sc
        pk = np.broadcast_to(p, batch + (2,))[ix]
        if onc:
            i1, i2 = (int(v) for v in fi[pt])
            d1 = d2 = 40
        else:
            (i1, i2), (d1, d2) = pt, shape
        yield {"ev": "point", "p1": int(pk[0]), "p2": int(pk[1]), "i1": i1, "i2": i2, "d1": d1, "d2": d2, "orders": coeffs,
               "coef": [planar.cx(v) for v in cf], "obs": planar.cx(val) if np.isfinite(val) and abs(val) < 400 else [obs.NAN, obs.NAN],
               "x": obs.fix1(x[pt], 10**6), "y": obs.fix1(y[pt], 10**6), "uv": uvi}

"""C14 driver: internal sources."""

import jax.numpy as jnp
import numpy as np

import lib
import mats
import obs
import planar
import stacks
from fmmax import fields, scattering, sources

SC = 10**7


def fp(x, key):
    return obs.fingerprint(x, 3, key, SC)


def bmaterial(kind, seed, shape, batch):
    """Material with a distinct pattern at each batch index; arrays (*batch, nx, ny)."""
    if not batch:
        return mats.material(kind, seed, shape)
    ms = [mats.material(kind, seed + 17 * i, shape) for i in range(int(np.prod(batch)))]
    st = lambda j: [np.stack([m[j][c] for m in ms]).reshape(tuple(batch) + ms[0][j][c].shape) for c in range(5)]
    return ms[0][0], st(1), st(2)


def bconv(x, exp):
    x = np.asarray(x)
    flat = x.reshape((-1,) + x.shape[-2:])
    return np.stack([mats.conv(a, exp) for a in flat]).reshape(x.shape[:-2] + (exp.num_terms,) * 2)


def run(s):
    if "nsrc" in s:
        yield from run_coef(s)
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 14])
    coeffs, shape = stacks.EXPS[s["exp"]]
    exp = lib.expansion(coeffs)
    n, m = len(coeffs), s["cols"]
    uv, wl, k = stacks.geometry(rng, s["exp"])
    w = 2 * np.pi / wl
    seed = s["seed"] * 1009 + 7 * s["sid"]
    kinds = {"bk": ["uniform"], "ak": ["uniform"]}
    sub = {}
    for side, batch in (("bk", tuple(s["bb"])), ("ak", tuple(s["ab"]))):
        nl = int(rng.integers(1, 4))
        ks = ["uniform", "isolossy", "uniform"][:nl - 1] + [s[side]]
        if side == "ak":
            ks = ks[::-1]
        out = []
        for i, kd in enumerate(ks):
            # The layer next to the source has the batch; others may have none.
            b = batch if kd == s[side] or rng.uniform() < 0.5 else ()
            api, eps, mu = bmaterial(kd, seed + 31 * i + (500 if side == "ak" else 0), shape, b)
            out.append((mats.solve(api, eps, mu, wl, k, uv, exp, s["form"]), eps, float(np.round(rng.uniform(0.08, 0.5), 3))))
        sub[side] = out
    lb, la = [x[0] for x in sub["bk"]], [x[0] for x in sub["ak"]]
    tb, ta = [jnp.asarray(x[2]) for x in sub["bk"]], [jnp.asarray(x[2]) for x in sub["ak"]]
    jb = tuple(s["jb"])
    js = [rng.uniform(-1, 1, size=jb + (n, m)) + 1j * rng.uniform(-1, 1, size=jb + (n, m)) for _ in range(3)]
    mask = [[1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]][s["sid"] % 4]
    js = [j * f for j, f in zip(js, mask)]
    sb = scattering.stack_s_matrix(layer_solve_results=lb, layer_thicknesses=tb)
    sa = scattering.stack_s_matrix(layer_solve_results=la, layer_thicknesses=ta)
    six = sources.amplitudes_for_source(jx=jnp.asarray(js[0]), jy=jnp.asarray(js[1]), jz=jnp.asarray(js[2]),
                                        s_matrix_before_source=sb, s_matrix_after_source=sa)
    ib = scattering.stack_s_matrices_interior(layer_solve_results=lb, layer_thicknesses=tb)
    ia = scattering.stack_s_matrices_interior(layer_solve_results=la, layer_thicknesses=ta)
    amps = fields.stack_amplitudes_interior_with_source(
        s_matrices_interior_before_source=ib, s_matrices_interior_after_source=ia,
        backward_amplitude_before_end=six[2], forward_amplitude_after_start=six[3])
    batch = np.broadcast_shapes(jb, tuple(s["bb"]), tuple(s["ab"]))
    want = list(batch) + [2 * n, m]
    G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
    kv = np.asarray(k)[None, :] + np.asarray(coeffs) @ G
    kx, ky = kv[:, :1], kv[:, 1:]
    eta = bconv(1 / sub["bk"][-1][1][4], exp)
    pz = eta @ js[2]
    jump = [kx * pz / w, ky * pz / w, js[1], -js[0]]
    jump = np.concatenate([np.broadcast_to(x, batch + (n, m)) for x in jump], axis=-2)
    K, L = len(lb), len(lb) + len(la)
    recs, big = [], 1e-9
    for i, ((a, b), sol, t) in enumerate(zip(amps, lb + la, tb + ta)):
        q = np.asarray(sol.eigenvalues)[..., None]
        f = np.exp(1j * q * float(t))
        A, B = np.asarray(a), np.asarray(b)
        F = lambda x, y: fields.fields_from_wave_amplitudes(
            forward_amplitude=jnp.asarray(x), backward_amplitude=jnp.asarray(y), layer_solve_result=sol)
        tang = lambda g: np.concatenate(
            [np.broadcast_to(np.asarray(v), batch + (n, m)) for v in (g[0][0], g[0][1], g[1][0], g[1][1])], axis=-2)
        st, en = tang(F(A, f * B)), tang(F(f * A, B))
        recs.append((A, B, st, en))
        big = max([big] + [float(np.abs(x).max()) for x in (A, B, st, en)])
    if not np.isfinite(big):
        yield {"ev": "layer", "index": 1, "total": 1, "split": 0, "ashape": [], "bshape": [], "want": [1], "a": [], "b": [],
               "startf": [obs.NAN], "endf": [obs.NAN], "jump": []}
        return
    if big > 60 or np.linalg.cond(np.asarray(sources.emission_matrix(s_matrix_before_source=sb, s_matrix_after_source=sa))).max() > 1e7:
        return
    bc = lambda x: np.broadcast_to(x, tuple(want))
    for i, (A, B, st, en) in enumerate(recs):
        yield {"ev": "layer", "index": i + 1, "total": L, "split": K, "ashape": obs.shape(A), "bshape": obs.shape(B), "want": want,
               "a": fp(A, 1), "b": fp(B, 2), "startf": fp(st, 3), "endf": fp(en, 3), "jump": fp(jump, 3)}
    names = [("b0", 1, 0), ("abefore", 0, K - 1), ("bbefore", 1, K - 1), ("aafter", 0, K), ("bafter", 1, K), ("aN", 0, L - 1)]
    yield {"ev": "six", "six": {nm: [fp(bc(np.asarray(x)), 4), fp(bc(recs[i][c]), 4)] for (nm, c, i), x in zip(names, six)}}
    # The jump order by order, in one batch element and column.
    ix = tuple(int(rng.integers(0, d)) for d in batch)
    col = int(rng.integers(0, m))
    pick = lambda x: np.broadcast_to(x, batch + x.shape[-2:])[ix][:, col]
    sc = max(1.0, big / 40.0)
    before, after = pick(recs[K - 1][3]) / sc, pick(recs[K][2]) / sc
    jj = [pick(x) / sc for x in js]
    et = np.broadcast_to(eta, batch + (n, n))[ix]
    if np.abs(et).max() > 20:
        return
    fld = lambda v, o: {c: planar.cx(v[i * n + o]) for i, c in enumerate(("ex", "ey", "hx", "hy"))}
    i6 = lambda x: int(round(float(x) * 1e6))
    for o in range(n) if n < 4 else sorted(set(int(x) for x in rng.integers(0, n, size=3))):
        yield {"ev": "jump", "w": i6(w), "kx": i6(kv[o, 0]), "ky": i6(kv[o, 1]), "before": fld(before, o), "after": fld(after, o),
               "jx": planar.cx(jj[0][o]), "jy": planar.cx(jj[1][o]), "jz": [planar.cx(x) for x in jj[2]],
               "eta": [planar.cx(x) for x in et[o]]}


def run_coef(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 141])
    coeffs, _ = stacks.EXPS[s["exp"]]
    exp = lib.expansion(coeffs)
    uv = stacks.LATTICES[int(rng.integers(0, len(stacks.LATTICES)))]
    batch = tuple(s["batch"])
    k = np.round(rng.uniform(-1, 1, size=batch + (2,)), 3)
    loc = np.round(rng.uniform(-1.5, 1.5, size=(s["nsrc"], 2)), 3)
    fwhm = float(np.round(rng.uniform(0.0, 0.6), 3))
    kw = dict(location=jnp.asarray(loc), in_plane_wavevector=jnp.asarray(k), primitive_lattice_vectors=lib.lattice(uv), expansion=exp)
    d = np.asarray(sources.dirac_delta_source(**kw))
    g = np.asarray(sources.gaussian_source(fwhm=jnp.asarray(fwhm), **kw))
    want = list(batch) + [len(coeffs), s["nsrc"]]
    G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
    i6 = lambda x: int(round(float(x) * 1e6))
    for _ in range(4):
        ix = tuple(int(rng.integers(0, b)) for b in batch)
        o, c = int(rng.integers(0, len(coeffs))), int(rng.integers(0, s["nsrc"]))
        kv = k[ix] + np.asarray(coeffs[o]) @ G
        at = lambda x: planar.cx(x[ix + (o, c)]) if list(x.shape) == want else [obs.NAN, obs.NAN]
        yield {"ev": "coef", "kx": i6(kv[0]), "ky": i6(kv[1]), "x": i6(loc[c, 0]), "y": i6(loc[c, 1]), "fwhm": i6(fwhm),
               "dirac": at(d), "gauss": at(g), "dshape": obs.shape(d), "gshape": obs.shape(g), "want": want}

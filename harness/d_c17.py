"""C17 driver: farfield."""

import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import basis, farfield

ORD = {
    "sym5": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]],
    "one": [[0, 0]],
    "line": [[0, 0], [0, 1], [0, -1]],
    "asym": [[0, 0], [1, 0], [2, 0], [0, -1]],
    "shift": [[2, 1], [1, 1], [1, 3]],
    "neg": [[-1, 0], [-2, 0], [-1, -3], [0, 0]],
    "hex": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]],
    "full": [[i, j] for i in (-1, 0, 1) for j in (-1, 0, 1)],
}
UV = [[[1.0, 0.0], [0.0, 1.0]], [[1.1, 0.0], [0.25, 0.9]], [[0.8, 0.3], [-0.4, 1.2]], [[2.3, 0.0], [0.0, 1.9]], [[0.0, 1.4], [1.5, 0.1]]]


def layout(name, N1, N2):
    """(batch shape, grid axes, index of extra axis)"""
    return {"plain": ((N1, N2), (0, 1)), "lead": ((2, N1, N2), (1, 2)), "mid": ((N1, 2, N2), (0, 2)), "trail": ((N1, N2, 2), (0, 1)),
            "two": ((2, N1, 3, N2), (1, 3))}[name]


def code_array(batch, axes, T, inner):
    """Array (*batch, T, inner) holding code numbers, extra axes flattened in order as b."""
    extra = [i for i in range(len(batch)) if i not in axes]
    B = int(np.prod([batch[i] for i in extra])) if extra else 1
    N1, N2 = batch[axes[0]], batch[axes[1]]
    a = np.arange(B * N1 * N2 * T * inner).reshape([batch[i] for i in extra] + [N1, N2, T, inner])
    src = list(range(len(extra))) + [len(extra), len(extra) + 1]
    dst = extra + list(axes)
    return np.moveaxis(a, src, dst), B, [batch[i] for i in extra]


def nanint(x):
    x = np.asarray(x)
    return [-1 if np.isnan(v) else int(round(float(v))) for v in x.ravel()]


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 17])
    orders = ORD[s["ord"]]
    T = len(orders)
    exp = lib.expansion(orders)
    N1, N2 = s["grid"]
    batch, axes = layout(s["layout"], N1, N2)
    S = s["num"]
    uv = UV[int(rng.integers(0, len(UV)))]
    lat = lib.lattice(uv)
    neg = lambda nd: tuple(a - nd for a in axes) if s["neg"] else axes
    common = {"ev": "place", "orders": orders, "N1": N1, "N2": N2}
    # unflatten: trailing (N1, N2, T)
    lead = {0: [], 1: [3], 2: [2, 2]}[s["sid"] % 3]
    B = int(np.prod(lead)) if lead else 1
    flat = np.arange(B * N1 * N2 * T).reshape(lead + [N1, N2, T]).astype(float)
    out = np.asarray(farfield.unflatten(jnp.asarray(flat), exp))
    yield {**common, "B": B, "inner": 1, "lead": lead, "trail": [], "shape": obs.shape(out), "out": nanint(out)}
    # unflatten_flux: (*batch, 2T, S)
    arr, B, lead = code_array(batch, axes, T, 2 * S)
    fl = np.moveaxis(arr.reshape(arr.shape[:-1] + (2, S)), -2, -3).reshape(tuple(batch) + (2 * T, S)).astype(float)
    out = np.asarray(farfield.unflatten_flux(jnp.asarray(fl), exp, neg(fl.ndim)))
    yield {**common, "B": B, "inner": 2 * S, "lead": lead, "trail": [2, S], "shape": obs.shape(out), "out": nanint(out)}
    # wavevectors: (*batch, T, 2)
    arr, B, lead = code_array(batch, axes, T, 2)
    out = np.asarray(farfield.unflatten_transverse_wavevectors(jnp.asarray(arr.astype(float)), exp, neg(arr.ndim)))
    yield {**common, "B": B, "inner": 2, "lead": lead, "trail": [2], "shape": obs.shape(out), "out": nanint(out)}
    # Profile.
    kbz = np.asarray(basis.brillouin_zone_in_plane_wavevector(brillouin_grid_shape=(N1, N2), primitive_lattice_vectors=lat))
    kv = kbz.reshape([batch[a] if a in axes else 1 for a in range(len(batch))] + [2])
    wl = np.round(rng.uniform(0.5, 2.5, size=[1 if a in axes else batch[a] for a in range(len(batch))]), 3)
    if len(batch) == 2:
        wl = np.round(rng.uniform(0.5, 2.5), 3)
    # Flux of either sign: the flux of backward waves is negative.
    flux = rng.uniform(0.1, 1.0, size=tuple(batch) + (2 * T, S)) * (rng.choice([-1.0, 1.0], size=tuple(batch) + (2 * T, S)) if s["sid"] % 2 else 1.0)
    kw = dict(flux=jnp.asarray(flux), wavelength=jnp.asarray(wl), in_plane_wavevector=jnp.asarray(kv), primitive_lattice_vectors=lat,
              expansion=exp, brillouin_grid_axes=neg(flux.ndim))
    polar, azim, solid, dens = (np.asarray(v) for v in farfield.farfield_profile(**kw))
    G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
    g = np.array(orders)
    mn = g.min(axis=0)
    ext = [i for i in range(len(batch)) if i not in axes]
    eb = [batch[i] for i in ext]
    wlb = np.broadcast_to(np.asarray(wl).reshape([batch[i] for i in ext]) if ext else np.asarray(wl), eb)
    nx, ny = ((g.max(axis=0) - mn + 1) * np.array([N1, N2])).tolist()
    if dens.shape != tuple(eb) + (nx, ny, 2, S):
        yield {"ev": "sum", "total": [], "inside": [], "outside": [], "flux": [], "shape": obs.shape(dens), "want": eb + [nx, ny, 2, S]}
        return
    tk = np.asarray(farfield.unflatten_transverse_wavevectors(
        basis.transverse_wavevectors(in_plane_wavevector=jnp.asarray(kbz), primitive_lattice_vectors=lat, expansion=exp), exp, (0, 1)))
    have = ~np.isnan(tk[..., 0])
    i6 = lambda v: obs.fix1(np.asarray(float(v)), 10**6)
    kof = lambda s1, s2, t: ((2 * s1 + 1 - N1) / (2 * N1) + orders[t][0]) * G[0] + ((2 * s2 + 1 - N2) / (2 * N2) + orders[t][1]) * G[1]

    def place(s1, s2, t):
        x, y = (orders[t][0] - mn[0]) * N1 + s1, (orders[t][1] - mn[1]) * N2 + s2
        return x, y, all(0 <= x + i < nx and 0 <= y + j < ny and have[x + i, y + j] for i in (-1, 0, 1) for j in (-1, 0, 1))

    def direction(profile, b, s1, s2, t, w):
        polar, azim, solid, dens = profile
        x, y, interior = place(s1, s2, t)
        k = kof(s1, s2, t)
        area = abs(G[0][0] * G[1][1] - G[0][1] * G[1][0]) / (N1 * N2) * (w / (2 * np.pi))**2
        pol, src = int(rng.integers(0, 2)), int(rng.integers(0, S))
        idx = [0] * len(batch)
        for e, v in zip(ext, b):
            idx[e] = v
        idx[axes[0]], idx[axes[1]] = s1, s2
        f = flux[tuple(idx) + (pol * T + t, src)]
        d = dens[b + (x, y, pol, src)]
        if interior and (not np.isfinite(d) or abs(d) > 400):
            sin = np.linalg.norm(k) * w / (2 * np.pi)
            interior = sin < 0.95  # evanescent positions have no solid angle
            if not interior:
                d = 0.0
        sa = solid[b + (x, y)]
        return {"ev": "dir", "kx": i6(k[0]), "ky": i6(k[1]), "kxobs": i6(tk[x, y, 0]), "kyobs": i6(tk[x, y, 1]), "wl": i6(w),
                "polar": i6(polar[b + (x, y)]), "azim": i6(azim[b + (x, y)]), "solid": i6(sa) if np.isfinite(sa) and abs(sa) < 400 else 0,
                "area": i6(area), "flux": i6(f), "dens": i6(d) if np.isfinite(d) and abs(d) < 400 else 0,
                "interior": bool(interior and np.isfinite(sa))}

    spread = lambda prof: [np.broadcast_to(v, tuple(eb) + (nx, ny)) for v in prof[:3]] + [prof[3]]
    profile = spread((polar, azim, solid, dens))
    for _ in range(6):
        b = tuple(int(rng.integers(0, d)) for d in eb)
        yield direction(profile, b, int(rng.integers(0, N1)), int(rng.integers(0, N2)), int(rng.integers(0, T)), float(wlb[b]))
    # Directions close to the horizon: the wavelength puts one position there.
    spots = [(s1, s2, t) for s1 in range(N1) for s2 in range(N2) for t in range(T) if np.linalg.norm(kof(s1, s2, t)) > 0.5]
    inner = [q for q in spots if place(*q)[2]] or spots
    for lo, hi in ((0.935, 0.975), (0.985, 0.998)):
        if not spots:
            break
        q = inner[int(rng.integers(0, len(inner)))]
        w = float(np.round(2 * np.pi * rng.uniform(lo, hi) / np.linalg.norm(kof(*q)), 6))
        prof = [np.asarray(v) for v in farfield.farfield_profile(**{**kw, "wavelength": jnp.full(np.shape(wl), w)})]
        yield direction(spread(prof), tuple(int(rng.integers(0, d)) for d in eb), *q, w)
    # Integration.
    c0 = float(rng.uniform(0.2, 1.3))
    kind = s["sid"] % 3
    fn = {0: lambda p, a: p < c0, 1: lambda p, a: a > c0 - 0.7, 2: lambda p, a: (p < c0) & (jnp.cos(a) > 0.1)}[kind]
    up = s["up"]
    I = lambda f: np.asarray(farfield.integrated_flux(**kw, angle_bounds_fn=f, upsample_factor=up))
    tot, ins, outs = I(lambda p, a: jnp.full(p.shape, True)), I(fn), I(lambda p, a: ~fn(p, a))
    ref = flux.sum(axis=tuple(axes) + (flux.ndim - 2,))
    sc = 10**7 / max(1.0, np.abs(ref).max() / 20)
    yield {"ev": "sum", "total": obs.fix(tot, sc), "inside": obs.fix(ins, sc), "outside": obs.fix(outs, sc), "flux": obs.fix(ref, sc),
           "shape": obs.shape(tot), "want": eb + [S]}
    # Without upsampling: the orders whose direction lies inside a cone.
    b = tuple(int(rng.integers(0, d)) for d in eb)
    src = int(rng.integers(0, S))
    w = float(wlb[b])
    sines, vals = [], []
    rows = []
    for s1 in range(N1):
        for s2 in range(N2):
            for t in range(T):
                k = ((2 * s1 + 1 - N1) / (2 * N1) + orders[t][0]) * G[0] + ((2 * s2 + 1 - N2) / (2 * N2) + orders[t][1]) * G[1]
                idx = [0] * len(batch)
                for e, v in zip(ext, b):
                    idx[e] = v
                idx[axes[0]], idx[axes[1]] = s1, s2
                f = flux[tuple(idx)][[t, T + t], src].sum()
                kk = k * w / (2 * np.pi)
                rows.append([i6(kk[0]), i6(kk[1]), int(round(f * 1e6))])
                sines.append(float(np.linalg.norm(kk)))
    lim = 0.6
    while any(abs(v - lim) < 1e-3 for v in sines):
        lim += 0.0037
    one = np.asarray(farfield.integrated_flux(**kw, angle_bounds_fn=lambda p, a: p < np.arcsin(lim), upsample_factor=1))
    if max(sines) < 30:
        yield {"ev": "sel", "list": rows, "limit2": int(round(lim * lim * 1e6)), "got": obs.fix1(one[b + (src,)], 10**6)}

"""Random structures by class and seed, shared by several drivers."""

import functools

import jax.numpy as jnp
import numpy as np

import lib

EXPS = {
    "e5": ([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]], (12, 11)),
    "e5b": ([[0, 0], [0, 1], [0, -1], [1, 1], [-1, -1]], (11, 12)),
    "e3": ([[0, 0], [1, 0], [-1, 0]], (13, 1)),
    "e1": ([[0, 0]], (5, 4)),
    "e9": ([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1], [2, 0], [-2, 0]], (14, 9)),
}
# Largest |order| in x, y decides the smallest grids; shapes above leave room.

LATTICES = [
    [[1.0, 0.0], [0.0, 1.0]],
    [[1.1, 0.0], [0.25, 0.9]],
    [[0.8, 0.3], [-0.4, 1.2]],
    [[0.0, 1.05], [0.95, 0.1]],
]

CLASSES = [
    "iso", "isolossy", "uniform", "uniformlossy", "aniso", "anisolossy", "magnetic", "magneticlossy",
    "grating", "gyro", "mixed",
]


def geometry(rng, ename, batch=()):
    uv = LATTICES[int(rng.integers(0, len(LATTICES)))]
    wl = float(np.round(rng.uniform(0.6, 1.6), 3))
    k = np.round(rng.uniform(-0.9, 0.9, size=2), 3)
    return uv, wl, k


def layer(kind, seed, wl, k, uv, ename, formulation="fft", batch=()):
    """One layer. Returns (solve result, lossless)."""
    coeffs, shape = EXPS[ename]
    exp = lib.expansion(coeffs)
    rng = np.random.default_rng([5, seed])
    u = lambda v: np.full(tuple(batch) + (1, 1), v, dtype=complex)
    if kind == "air":
        return lib.iso(wl, k, uv, np.full((1, 1), 1.0, dtype=complex), exp, formulation), True
    if kind == "glass":
        return lib.iso(wl, k, uv, np.full((1, 1), 2.1, dtype=complex), exp, formulation), True
    if kind == "uniform":
        return lib.iso(wl, k, uv, u(rng.uniform(1.2, 6.0)), exp, formulation), True
    if kind == "uniformlossy":
        return lib.iso(wl, k, uv, u(complex(rng.uniform(-3.0, 5.0), rng.uniform(0.2, 1.0))), exp, formulation), False
    if kind == "iso":
        return lib.iso(wl, k, uv, lib.pattern(seed, shape, 1.3, 5.0, 0.0, batch), exp, formulation), True
    if kind == "isolossy":
        return lib.iso(wl, k, uv, lib.pattern(seed, shape, 1.3, 5.0, 0.8, batch), exp, formulation), False
    if kind == "grating":
        sh = (shape[0], 1) if shape[1] == 1 else shape
        row = lib.pattern(seed, (sh[0], 1), 1.3, 6.0, 0.0, batch)
        return lib.iso(wl, k, uv, np.broadcast_to(row, tuple(batch) + sh).copy(), exp, formulation), True
    if kind == "aniso":
        t = lib.tensor(seed, shape, batch, lo=2.0, hi=4.0, off=0.25)
        t[2] = t[1]
        return lib.gen(wl, k, uv, t, None, exp, formulation), True
    if kind == "gyro":
        # Magneto-optic, and for odd seeds a ferrite as well.
        m = lib.tensor(seed + 7, shape, batch, lo=1.0, hi=1.9, off=0.15, hermitian=True) if seed % 2 else None
        return lib.gen(wl, k, uv, lib.tensor(seed, shape, batch, lo=2.0, hi=4.0, off=0.2, hermitian=True), m, exp, formulation), True
    if kind == "anisolossy":
        return lib.gen(wl, k, uv, lossy_tensor(seed, shape, batch), None, exp, formulation), False
    if kind == "magnetic":
        t = lib.tensor(seed, shape, batch, lo=2.0, hi=4.0, off=0.2)
        t[2] = t[1]
        m = lib.tensor(seed + 7, shape, batch, lo=1.0, hi=1.9, off=0.1)
        m[2] = m[1]
        return lib.gen(wl, k, uv, t, m, exp, formulation), True
    if kind == "magneticlossy":
        return lib.gen(wl, k, uv, lossy_tensor(seed, shape, batch),
                       lossy_tensor(seed + 9, shape, batch, lo=1.0, hi=1.8, off=0.1), exp, formulation), False
    if kind == "unianiso":
        v = rng.uniform(1.5, 4.0, size=3)
        o = rng.uniform(-0.3, 0.3)
        return lib.gen(wl, k, uv, [u(v[0]), u(o), u(o), u(v[1]), u(v[2])], None, exp, formulation), True
    raise ValueError(kind)


def lossy_tensor(seed, shape, batch, lo=2.0, hi=4.0, off=0.2):
    """Passive tensor: hermitian part arbitrary, loss diagonal dominant."""
    t = lib.tensor(seed, shape, batch, lo=lo, hi=hi, off=off, loss=0.6)
    t[2] = t[1]
    return t


KINDS = {
    "iso": ["iso", "iso", "uniform"], "isolossy": ["isolossy", "iso", "uniformlossy"],
    "uniform": ["uniform"], "uniformlossy": ["uniformlossy", "uniform"],
    "aniso": ["aniso", "unianiso"], "anisolossy": ["anisolossy", "aniso"],
    "magnetic": ["magnetic", "iso"], "magneticlossy": ["magneticlossy", "magnetic"],
    "grating": ["grating", "uniform"], "gyro": ["gyro"],
    "mixed": ["iso", "aniso", "magnetic", "uniformlossy", "gyro", "isolossy", "unianiso"],
}


@functools.lru_cache(maxsize=64)
def structure(cls, seed, ename="e5", nlayers=None, batch=(), formulation="fft", ambients=True):
    """dict with layers, thicknesses (floats), lossless flags and geometry."""
    rng = np.random.default_rng([11, seed])
    uv, wl, k = geometry(rng, ename)
    n = nlayers if nlayers is not None else int(rng.integers(1, 4))
    kinds, layers, loss, ths = [], [], [], []
    if ambients:
        kinds.append("air" if rng.uniform() < 0.5 else "glass")
    for _ in range(n):
        kinds.append(KINDS[cls][int(rng.integers(0, len(KINDS[cls])))])
    if n > 0 and not any(x in (cls,) for x in kinds) and cls in ("iso", "isolossy", "aniso", "anisolossy", "magnetic", "magneticlossy", "grating", "gyro", "uniformlossy"):
        kinds[1 if ambients else 0] = cls
    if ambients:
        kinds.append("air" if rng.uniform() < 0.5 else "glass")
    for i, kd in enumerate(kinds):
        s, l = layer(kd, seed * 31 + i, wl, k, uv, ename, formulation, batch)
        layers.append(s)
        loss.append(l)
        ths.append(float(np.round(rng.uniform(0.1, 0.6), 3)))
    return {"layers": layers, "ths": ths, "lossless": loss, "kinds": kinds, "uv": uv, "wl": wl, "k": k,
            "coeffs": EXPS[ename][0], "n": len(EXPS[ename][0])}


def amplitudes(rng, n, m, batch=()):
    sh = tuple(batch) + (2 * n, m)
    return rng.uniform(-1, 1, size=sh) + 1j * rng.uniform(-1, 1, size=sh)


def jx(x):
    return jnp.asarray(x)

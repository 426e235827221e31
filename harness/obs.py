"""Observation helpers: arrays of the code under test -> integers for the trace.

All real numbers are logged in fixed point: `scale * x` rounded to the nearest
integer. NaN and infinities become the sentinels below (outside the valid range),
large magnitudes are clipped to CLIP. Nothing is judged here.
"""

import numpy as np

CLIP = 2_000_000_000
NAN = 2_100_000_000
INF = 2_050_000_000


def fix(x, scale):
    """Fixed-point list (flattened, C order) for a real array."""
    x = np.asarray(x)
    if np.iscomplexobj(x):
        raise TypeError("use cfix for complex arrays")
    x = x.astype(np.float64).ravel() * float(scale)
    out = []
    for v in x:
        if np.isnan(v):
            out.append(NAN)
        elif np.isinf(v):
            out.append(INF if v > 0 else -INF)
        else:
            out.append(int(np.clip(np.rint(v), -CLIP, CLIP)))
    return out


def fix1(x, scale):
    return fix(np.asarray(x).reshape(-1)[:1], scale)[0]


def cfix(x, scale):
    """Fixed-point list of interleaved (re, im) for a complex array."""
    x = np.asarray(x).astype(np.complex128).ravel()
    return fix(np.stack([x.real, x.imag], axis=-1), scale)


def shape(x):
    return [int(d) for d in np.shape(x)]


def fingerprint(x, n, key, scale):
    """`n` fixed pseudo-random projections (normalised) of a complex array."""
    x = np.asarray(x).astype(np.complex128).ravel()
    rng = np.random.default_rng([77, key, x.size])
    w = rng.uniform(-1, 1, size=(n, x.size)) + 1j * rng.uniform(-1, 1, size=(n, x.size))
    w /= np.sqrt(max(1, x.size))
    return cfix(w @ x, scale)


def relerr(a, b):
    """max |a-b| / max(1e-300, max|b|); shape mismatch or nan -> inf."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return float("inf")
    return float(d.max() / max(np.abs(b).max(), 1e-300))


def directions(q):
    """(lossless, others): masks of the modes that propagate without loss to within rounding (judged by
    the sign of their real part), and of those that decay by more than rounding errors."""
    q = np.asarray(q)
    q2 = q.astype(np.complex128) ** 2  # the eigenvalues of the problem that is solved numerically
    noise = np.finfo(q.dtype).eps * np.abs(q2).max()
    flat = lambda k: (q2.real > 0) & (np.abs(q2.imag) <= k * noise)
    return flat(4), ~flat(40)

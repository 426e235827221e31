"""C08 driver: transforms of data synthesised from integer coefficient tables."""

import numpy as np
import jax.numpy as jnp

import lib
import obs
from fmmax import fft

U = 10**4


def waves(nx, ny, gx, gy):
    a = np.arange(nx)[:, None]
    b = np.arange(ny)[None, :]
    return np.exp(2j * np.pi * (gx * a / nx + gy * b / ny))


def synth(tab, nx, ny):
    x = np.zeros((nx, ny), dtype=complex)
    for gx, gy, re, im in tab:
        x += (re + 1j * im) * waves(nx, ny, gx, gy)
    return x


def analyse(x):
    """All DFT coefficients by explicit summation."""
    nx, ny = x.shape
    wx = np.exp(-2j * np.pi * np.outer(np.arange(nx), np.arange(nx)) / nx) / nx
    wy = np.exp(-2j * np.pi * np.outer(np.arange(ny), np.arange(ny)) / ny) / ny
    return wx @ x @ wy


def run(s):
    E, nx, ny = s["e"], s["nx"], s["ny"]
    lead, trail = s["lay"]
    lead, trail = tuple(lead), tuple(trail)
    rng = np.random.default_rng([s["seed"], s["sid"]])
    exp = lib.expansion(E)
    n = len(E)
    nb = int(np.prod(lead + trail, dtype=int))
    head = {"e": E, "nx": nx, "ny": ny}
    real = s["dt"] in ("float64", "float32")
    dt = np.dtype(s["dt"])

    def table(k=6):
        t = []
        for _ in range(k):
            gx, gy = int(rng.integers(-nx, nx + 1)), int(rng.integers(-ny, ny + 1))
            if rng.uniform() < 0.6:
                gx, gy = E[rng.integers(0, n)]
            re, im = (int(v) for v in rng.integers(-9, 10, size=2))
            if real:
                t += [[gx, gy, re, im], [-gx, -gy, re, -im]]
            else:
                t += [[gx, gy, re, im]]
        return t

    def arrange(arrs, sh):
        """list over batch (lead+trail) of arrays with shape sh -> lead + sh + trail."""
        x = np.stack(arrs).reshape(lead + trail + sh)
        src = tuple(range(len(lead) + len(trail), len(lead) + len(trail) + len(sh)))
        dst = tuple(range(len(lead), len(lead) + len(sh)))
        return np.moveaxis(x, src, dst)

    def collect(y, k):
        """inverse of arrange: returns array (batch, k dims...)."""
        src = tuple(range(len(lead), len(lead) + k))
        dst = tuple(range(y.ndim - k, y.ndim))
        y = np.moveaxis(np.asarray(y), src, dst)
        return y.reshape((-1,) + y.shape[y.ndim - k:])

    # Forward transform, positive and negative axes.
    tabs = [table() for _ in range(nb)]
    xs = [synth(t, nx, ny) for t in tabs]
    x = arrange(xs, (nx, ny))
    x = (x.real if real else x).astype(dt)
    a0 = len(lead)
    for axes in ((a0, a0 + 1), (a0 - x.ndim, a0 + 1 - x.ndim), None):
        if axes is None and trail:
            continue
        kw = {} if axes is None else {"axes": axes}
        y = np.asarray(fft.fft(jnp.asarray(x), exp, **kw))
        want = list(lead + (n,) + trail)
        o = collect(y, 1) if list(y.shape) == want else np.full((nb, n), np.nan)
        yield {"ev": "fft", **head, "tab": tabs, "shape": list(y.shape), "want": want,
               "obs": [obs.cfix(v, U) for v in o]}
    # Inverse transform.
    ys = [[int(v) for v in rng.integers(-9, 10, size=2 * n)] for _ in range(nb)]
    yc = [np.array(v[0::2]) + 1j * np.array(v[1::2]) for v in ys]
    y = arrange(yc, (n,)).astype(np.complex64 if dt.itemsize in (4,) or s["dt"] == "complex64" else complex)
    for ax in (a0, a0 - y.ndim, None):
        if ax is None and trail:
            continue
        kw = {} if ax is None else {"axis": ax}
        f = np.asarray(fft.ifft(jnp.asarray(y), exp, (nx, ny), **kw))
        want = list(lead + (nx, ny) + trail)
        o = collect(f, 2) if list(f.shape) == want else np.full((nb, nx, ny), np.nan)
        yield {"ev": "ifft", **head, "y": ys, "shape": list(f.shape), "want": want,
               "obs": [obs.cfix(analyse(v), U) for v in o]}
        if list(f.shape) == want:
            back = np.asarray(fft.fft(jnp.asarray(f), exp, axes=(a0, a0 + 1)))
            yield {"ev": "trip", **head, "y": ys, "obs": [obs.cfix(v, U) for v in collect(back, 1)]}
    # Convolution matrices: trailing axes only.
    if not trail:
        m = np.asarray(fft.fourier_convolution_matrix(jnp.asarray(x), exp))
        want = list(lead + (n, n))
        o = m.reshape(-1, n, n) if list(m.shape) == want else np.full((nb, n, n), np.nan)
        yield {"ev": "conv", **head, "tab": tabs, "shape": list(m.shape), "want": want,
               "obs": [obs.cfix(v, U) for v in o]}
        # Product law on a grid with room for all products.
        mx = max(abs(g[0]) for g in E)
        my = max(abs(g[1]) for g in E)
        px, py = 4 * mx + 1 + (nx % 3), 4 * my + 1 + (ny % 2)
        ptab = []
        for _ in range(nb):
            t = []
            for i in range(n):
                j = int(rng.integers(0, n))
                re, im = (int(v) for v in rng.integers(-4, 5, size=2))
                t.append([E[i][0] - E[j][0], E[i][1] - E[j][1], re, im])
            ptab.append(t)
        px_arr = np.stack([synth(t, px, py) for t in ptab]).reshape(lead + (px, py))
        m = np.asarray(fft.fourier_convolution_matrix(jnp.asarray(px_arr), exp))
        yv = np.stack(yc).reshape(lead + (n, 1))
        prod = (m @ yv).reshape(-1, n)
        fy = np.asarray(fft.ifft(jnp.asarray(np.stack(yc).reshape(lead + (n,))), exp, (px, py)))
        rs = np.asarray(fft.fft(jnp.asarray(px_arr * fy), exp)).reshape(-1, n)
        yield {"ev": "product", "e": E, "nx": px, "ny": py, "tab": ptab, "y": ys,
               "obs": [obs.cfix(v, U) for v in prod], "real": [obs.cfix(v, U) for v in rs]}
        # Masks and integer images are the same data as their floating-point copies.
        for dt2 in ("uint8", "int8", "bool", "int32"):
            xi = rng.integers(0, 2 if dt2 == "bool" else 9, size=lead + (nx, ny)).astype(dt2)
            xf = jnp.asarray(xi.astype(np.float64))
            xi = jnp.asarray(xi)
            for fn in (fft.fourier_convolution_matrix, fft.fft):
                yield {"ev": "dtype", "obs": obs.cfix(fn(xi, exp), U), "ref": obs.cfix(fn(xf, exp), U)}
    yield {"ev": "min", **head, "min": [int(v) for v in fft.min_array_shape_for_expansion(exp)]}
    mn = (2 * max(abs(g[0]) for g in E) + 1, 2 * max(abs(g[1]) for g in E) + 1)
    for bad in ((mn[0] - 1, mn[1]), (mn[0], mn[1] - 1), (mn[0] - 1, mn[1] + 4), (mn[0] + 4, mn[1] - 1)):
        if min(bad) < 1:
            continue
        for fn in ("fft", "ifft", "conv"):
            try:
                if fn == "fft":
                    fft.fft(jnp.ones(lead + bad + trail), exp, axes=(a0, a0 + 1))
                elif fn == "conv":
                    fft.fourier_convolution_matrix(jnp.ones(lead + bad), exp)
                else:
                    fft.ifft(jnp.ones(lead + (n,) + trail), exp, bad, axis=a0)
                raised = False
            except Exception:
                raised = True
            yield {"ev": "reject", **head, "fn": fn, "bad": list(bad), "raised": raised}

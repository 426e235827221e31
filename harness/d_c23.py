"""C23 driver: permittivity interpolation with different layouts and dtypes."""

import jax.numpy as jnp
import numpy as np

import obs
from fmmax import utils


def event(rows, out, want):
    out = np.asarray(out)
    return {"ev": "rows", "rows": [list(map(int, r)) for r in rows], "re": obs.fix(np.real(out), 10**6),
            "im": obs.fix(np.imag(out), 10**6), "shape": obs.shape(out), "want": list(want)}


def eps(n, k, dtype):
    n, k = np.asarray(n), np.asarray(k)
    e = ((n * n - k * k) + 2j * n * k) / 100.0
    if dtype == "real":
        return jnp.asarray(e.real)
    return jnp.asarray(e)


def run(s):
    rows = np.asarray(s["rows"])
    mode = s["mode"]
    f = lambda a, b, d: utils.interpolate_permittivity(permittivity_solid=a, permittivity_void=b, density=d)
    if mode == "vector":
        out = f(eps(rows[:, 0], rows[:, 1], "c"), eps(rows[:, 2], rows[:, 3], "c"), jnp.asarray(rows[:, 4] / 10.0))
        yield event(rows, out, (len(rows),))
    elif mode == "grid":  # constant materials, density on a grid, as in topology optimisation
        m = rows[:1, :4]
        rr = np.concatenate([np.broadcast_to(m, (len(rows), 4)), rows[:, 4:]], axis=1)
        n = len(rows) // 2
        d = jnp.asarray(rr[:2 * n, 4].reshape(2, n) / 10.0)
        out = f(eps(m[0, 0], m[0, 1], "c"), eps(m[0, 2], m[0, 3], "c"), d)
        yield event(rr[:2 * n], out, (2, n))
    elif mode == "outer":  # materials (e.g. per wavelength) by density
        a = rows[:4]
        d = rows[:5, 4]
        rr = [[*x[:4], y] for x in a for y in d]
        out = f(eps(a[:, :1], a[:, 1:2], "c"), eps(a[:, 2:3], a[:, 3:4], "c"), jnp.asarray(d / 10.0))
        yield event(rr, out, (len(a), len(d)))
    elif mode == "real":  # real-valued permittivities, including negative ones
        ok = [r for r in rows if r[0] * r[1] == 0 and r[2] * r[3] == 0 and r[1] >= 0 and r[3] >= 0]
        if ok:
            ok = np.asarray(ok)
            out = f(eps(ok[:, 0], ok[:, 1], "real"), eps(ok[:, 2], ok[:, 3], "real"), jnp.asarray(ok[:, 4] / 10.0))
            yield event(ok, out, (len(ok),))
    elif mode == "scalar":
        for r in rows[:6]:
            out = f(eps(r[0], r[1], "c"), eps(r[2], r[3], "c"), jnp.asarray(r[4] / 10.0))
            yield event([r], out, ())
    elif mode == "mixed":  # real solid, complex void
        ok = [r for r in rows if r[0] * r[1] == 0 and r[1] >= 0]
        if ok:
            ok = np.asarray(ok)
            out = f(eps(ok[:, 0], ok[:, 1], "real"), eps(ok[:, 2], ok[:, 3], "c"), jnp.asarray(ok[:, 4] / 10.0))
            yield event(ok, out, (len(ok),))

"""C16 driver: uniaxial PML tensors."""

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import pml

PARAMS = [(4.0, 4.0, 1.0), (2.5, 2.0, 1.0), (1.0, 1.0, 0.5), (3.0, 3.0, 2.0), (0.0, 2.0, 1.5), (2.0, 0.5, 0.7), (1.5, 1.5, 0.0)]
BATCH = [(), (2,), (2, 1), ()]
C = lambda z: [int(np.clip(round(z.real * 1e6), -2e9, 2e9)), int(np.clip(round(z.imag * 1e6), -2e9, 2e9))]


def run(s):
    nx, ny, wx, wy = (s[k] for k in ("nx", "ny", "wx", "wy"))
    a, p, sg = PARAMS[s["sid"] % len(PARAMS)]
    batch = BATCH[s["sid"] % len(BATCH)]
    rng = np.random.default_rng([s["seed"], s["sid"], 16])
    eps = np.round(rng.uniform(1, 5, size=batch + (nx, ny)), 3) + 1j * np.round(rng.uniform(0, 1, size=batch + (nx, ny)), 3) * (s["sid"] % 3 > 0)
    arr = jnp.asarray(eps if s["sid"] % 3 else eps.real)
    default = (a, p, sg) == (4.0, 4.0, 1.0)
    params = pml.PMLParams(num_x=wx, num_y=wy) if default else pml.PMLParams(num_x=wx, num_y=wy, a_max=a, p=p, sigma_max=sg)
    try:
        fn = pml.apply_uniaxial_pml
        if s["sid"] % 5 == 4:
            fn = jax.jit(fn)
        e, m = fn(permittivity=arr, pml_params=params)
        ok = True
    except Exception:
        ok = False
    yield {"ev": "valid", "nx": nx, "ny": ny, "wx": wx, "wy": wy, "ok": ok}
    if not ok or not (nx > 2 * wx and ny > 2 * wy):
        return
    e, m = [np.asarray(x) for x in e], [np.asarray(x) for x in m]
    yield {"ev": "shape", "shapes": [list(x.shape) for x in e + m], "want": list(batch) + [nx, ny]}
    if any(x.shape != tuple(batch) + (nx, ny) for x in e + m):
        return
    for b in range(int(np.prod(batch))):
        f = lambda x: [C(complex(v)) for v in x.reshape((-1, nx * ny))[b]]
        names = ("xx", "xy", "yx", "yy", "zz")
        yield {"ev": "pml", "nx": nx, "ny": ny, "wx": wx, "wy": wy, "a": int(a * 1e6), "p2": int(2 * p), "sigma": int(sg * 1e6),
               "eps": f(eps), **{"e" + k: f(x) for k, x in zip(names, e)}, **{"m" + k: f(x) for k, x in zip(names, m)}}

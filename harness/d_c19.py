"""C19 driver: beam reorientation."""

import jax.numpy as jnp
import numpy as np

from fmmax import beams

ANG = {0: 0.0, 1: np.arctan2(4, 3), 2: np.arctan2(-5, 12), 3: np.pi / 2, 4: np.pi, 5: np.arctan2(3, -4), 6: 1, 7: -2.5, 8: 0.3,
       9: np.arctan2(-24, -7), 10: 2 * np.pi + 0.7}
SHAPES = {0: (), 1: (3,), 2: (2, 3), 3: (1,), 4: (2, 1, 2), 5: (3, 1), 6: (3, 3), 7: (1, 1)}
ORIGINS = {0: (0.0, 0.0, 0.0), 1: (0.5, -0.25, 0.75), 2: (-1.5, 0.4, 0.0)}
I6 = lambda v: int(round(float(v) * 1e6))


def run(s):
    a = [ANG[s[k]] for k in ("polar", "az", "pol")]
    rng = np.random.default_rng([s["seed"], s["sid"], 19])
    cs = {k: [I6(np.cos(v)), I6(np.sin(v))] for k, v in zip(("polar", "az", "pol"), a)}
    arg = [x if rng.uniform() < 0.4 else jnp.asarray(x) for x in a]
    mat = np.asarray(beams.rotation_matrix(*arg))
    fin = lambda m: [[I6(v) if np.isfinite(v) else 2_000_000 for v in r] for r in m]
    yield {"ev": "matrix", **cs, "mat": fin(mat) if mat.shape == (3, 3) else []}
    if s["pol"] == 6 and s["az"] == 6 and s["polar"] in (0, 6):
        mi = np.asarray(beams.rotation_matrix(jnp.asarray(int(a[0])), jnp.asarray(1), 1))
        yield {"ev": "matrix", **cs, "mat": fin(mi)}
    shape = SHAPES[s["shape"]]
    o = ORIGINS[s["origin"]]
    r = np.round(rng.uniform(-2, 2, size=(3,) + shape), 3)
    fn = {k: {"a": np.round(rng.uniform(-1, 1, size=(3, 3)), 3), "c": np.round(rng.uniform(-1, 1, size=3), 3)} for k in ("fe", "fh", "fi")}

    def field(x, y, z):
        p = jnp.stack([x, y, z])
        v = {k: jnp.einsum("ij,j...->i...", f["a"], p) + f["c"].reshape((3,) + (1,) * x.ndim) for k, f in fn.items()}
        return tuple(v["fe"] + 1j * v["fi"]), tuple(v["fh"] + 0j)

    E, H = beams.shifted_rotated_fields(
        field, *[jnp.asarray(x) for x in r], beam_origin_x=jnp.asarray(o[0]), beam_origin_y=jnp.asarray(o[1]),
        beam_origin_z=jnp.asarray(o[2]), polar_angle=arg[0], azimuthal_angle=arg[1], polarization_angle=arg[2])
    E, H = [np.asarray(x) for x in E], [np.asarray(x) for x in H]
    shapes = [list(x.shape) for x in E + H]
    pts = []
    if all(tuple(x) == shape for x in shapes):
        for i in np.ndindex(*shape):
            pts.append({"r": [I6(v[i]) for v in r], "e": [I6(x[i].real) for x in E], "i": [I6(x[i].imag) for x in E],
                        "h": [I6(x[i].real) for x in H]})
    js = {k: {"a": [[I6(v) for v in row] for row in f["a"]], "c": [I6(v) for v in f["c"]]} for k, f in fn.items()}
    yield {"ev": "fields", **cs, **js, "origin": [I6(v) for v in o], "shapes": shapes, "want": list(shape), "points": pts}

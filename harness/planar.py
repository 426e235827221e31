"""Homogeneous media with decimal parameters, shared by the planar drivers.

All parameters have at most six decimals so that fixed point is exact.
"""

import functools

import numpy as np

import lib

# name -> (eps_diag, mu_diag); entries are complex decimals.
MEDIA = {
    1: ([1, 1, 1], [1, 1, 1]),
    2: ([2.25] * 3, [1, 1, 1]),
    3: ([6.25] * 3, [1, 1, 1]),
    4: ([3.1 + 0.4j] * 3, [1, 1, 1]),
    5: ([-4 + 0.5j] * 3, [1, 1, 1]),
    6: ([2.0] * 3, [1.7] * 3),
    7: ([1.5 + 0.1j] * 3, [2.2 + 0.3j] * 3),
    8: ([2.5, 2.5, 4.0], [1, 1, 1]),
    9: ([2.0, 2.0, 3.0 + 0.2j], [1.5, 1.5, 1.2]),
    10: ([2.1, 3.4, 1.8], [1, 1, 1]),
    11: ([2.1 + 0.1j, 3.4, 1.8 + 0.2j], [1.2, 1.6 + 0.1j, 1.4]),
    12: ([0.4] * 3, [1, 1, 1]),
    13: ([-6.0 + 0.2j, 2.0 + 0.1j, 3.0 + 0.3j], [1, 1, 1]),
    14: ([1.4] * 3, [-2.0 + 0.3j] * 3),
    15: ([2.6, 2.6, 3.1], [1, 1, 1]),
    16: ([3.2 + 0.1j, 3.2 + 0.1j, 2.4], [1, 1, 1]),
    17: ([2.0, 2.0, 1.7], [1.6, 1.6, 1.3]),
    18: ([-1.2 + 0.2j, -1.2 + 0.2j, 2.0], [1.5, 1.5, 1.5]),
}
# Gyrotropic media: xy = i g, yx = -i g of permittivity and permeability.
GYRO = {15: (0.8, 0), 16: (-1.1 + 0.2j, 0), 17: (0.45, -0.3), 18: (2.1, 0.5 + 0.1j)}
ISO = {1, 2, 3, 4, 5, 6, 7, 12, 14}
UNIAXIAL = ISO | {8, 9}
NONMAG = {1, 2, 3, 4, 5, 8, 10, 12, 13, 15, 16}
THICK = {1: 0.0, 2: 0.15, 3: 0.3, 4: 0.55, 5: 0.8}
AXES = {1: (1.0, 0.0), 2: (0.0, 1.0), 3: (0.6, 0.8), 4: (-0.8, 0.6), 5: (0.28, 0.96)}
W = {1: 2.0, 2: 3.5, 3: 1.3}
KMAG = {1: 0.0, 2: 0.5, 3: 1.25, 4: -0.9, 5: 2.75}


def rot(diag, ax):
    """(xx, xy, yx, yy, zz) of the diagonal tensor with first axis along ax."""
    c, s = ax
    a, b, z = diag
    return [c * c * a + s * s * b, c * s * (a - b), c * s * (a - b), s * s * a + c * c * b, z]


def cx(z):
    z = complex(z)
    return [int(round(z.real * 1e6)), int(round(z.imag * 1e6))]


@functools.lru_cache(maxsize=None)
def _solve(mid, wl, k, uv, coeffs, ax, entry, shape):
    eps, mu = MEDIA[mid]
    exp = lib.expansion(coeffs)
    full = lambda v: np.full(shape, v, dtype=complex)
    if entry == "iso":
        return lib.iso(wl, k, uv, full(eps[0]), exp)
    tensor = lambda diag, g: [full(v) for v in np.add(rot(diag, ax), [0, 1j * g, -1j * g, 0, 0])]
    ge, gm = GYRO.get(mid, (0, 0))
    if entry == "aniso":
        return lib.gen(wl, k, uv, tensor(eps, ge), None, exp)
    return lib.gen(wl, k, uv, tensor(eps, ge), tensor(mu, gm), exp)


def entries(mid):
    out = ["gen"]
    if mid in NONMAG:
        out.append("aniso")
        if mid in ISO:
            out.append("iso")
            out.append("iso")
    return out


def solve(mid, wl, k, uv, coeffs, ax, entry, shape=(1, 1)):
    return _solve(mid, float(wl), tuple(float(x) for x in k), tuple(tuple(float(y) for y in x) for x in uv),
                  tuple(tuple(int(y) for y in g) for g in coeffs), tuple(ax), entry, tuple(shape))


def layer_json(mid, d):
    eps, mu = MEDIA[mid]
    return {"e": [cx(v) for v in eps], "m": [cx(v) for v in mu], "d": int(round(d * 1e6))}


def layer_json_for(mid, d, axis_dir):
    """Material in the frame of the wavevector, where the medium allows it.

    axis_dir: "x" if the wavevector is along the first material axis, "y" if along
    the second, "any" for other directions (uniaxial media only), "circ" for circular
    polarization at normal incidence (gyrotropic and uniaxial media).
    """
    eps, mu = MEDIA[mid]
    if axis_dir == "circ":
        ge, gm = GYRO.get(mid, (0, 0))
        return {**layer_json(mid, d), "g": cx(ge), "gm": cx(gm)}
    if axis_dir == "y":
        eps = [eps[1], eps[0], eps[2]]
        mu = [mu[1], mu[0], mu[2]]
    elif axis_dir == "any" and mid not in UNIAXIAL:
        return None
    return {"e": [cx(v) for v in eps], "m": [cx(v) for v in mu], "d": int(round(d * 1e6))}

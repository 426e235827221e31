"""C09 driver: lattice geometry."""

import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import basis

S = 10**5
EXPS = [
    [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]],
    [[0, 0], [0, 1], [0, -1], [1, 0], [-1, 0]],  # same length, other order
    [[2, -1], [0, 0], [-3, 1]],
    [[0, 0]],
]
# angle -> (sin, cos, hyp)
ANG = [(0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (-3, 4, 5), (1, 0, 1), (4, -3, 5), (0, -1, 1), (-1, 0, 1)]


def run(s):
    L, sc = s["lat"], s["scale"]
    uv = [[L[0] * sc, L[1] * sc], [L[2] * sc, L[3] * sc]]
    lv = lib.lattice(uv)
    # A batch of lattices with distinct elements.
    Ls = [[L, [L[0] + 1, L[1], L[2], L[3]], [L[0], L[1], L[2], L[3] - 1]], [L], [L, [L[2], L[3], L[0], L[1]]]][s["sid"] % 3]
    Ls = [m if m[0] * m[3] - m[1] * m[2] != 0 else L for m in Ls]
    bshape = [(len(Ls),), (), (1, len(Ls))][s["sid"] % 3]
    arr = np.array(Ls, dtype=float) * sc
    blv = basis.LatticeVectors(u=jnp.asarray(arr[:, :2].reshape(bshape + (2,))), v=jnp.asarray(arr[:, 2:].reshape(bshape + (2,))))

    for r in (basis.reciprocal(blv), blv.reciprocal):
        yield {"ev": "recip", "lats": Ls, "u": obs.fix(r.u * sc, S), "v": obs.fix(r.v * sc, S),
               "shape": obs.shape(r.u) + obs.shape(r.v), "want": (list(bshape) + [2]) * 2}

    nx, ny = s["shape"]
    m, n = s["cells"]
    x, y = basis.unit_cell_coordinates(primitive_lattice_vectors=blv, shape=(nx, ny), num_unit_cells=(m, n))
    yield {"ev": "coords", "lats": Ls, "nx": nx, "ny": ny, "m": m, "n": n,
           "shape": obs.shape(x), "want": list(bshape) + [nx * m, ny * n],
           "x": obs.fix(x / sc, S), "y": obs.fix(y / sc, S)}

    rng = np.random.default_rng([s["seed"], s["sid"], 9])
    for g in EXPS:
        exp = lib.expansion(g)
        k0 = rng.integers(-8, 9, size=(len(Ls), 2))
        kk = (k0 / 7 * 2 * np.pi / sc).reshape(bshape + (2,))
        k = basis.transverse_wavevectors(in_plane_wavevector=jnp.asarray(kk), primitive_lattice_vectors=blv, expansion=exp)
        yield {"ev": "tw", "lats": Ls, "g": g, "k0": k0.tolist(), "kd": 7, "shape": obs.shape(k),
               "want": list(bshape) + [len(g), 2], "k": obs.fix(k * sc / (2 * np.pi), S)}
        # Unbatched lattice with a batch of wavevectors.
        k = basis.transverse_wavevectors(in_plane_wavevector=jnp.asarray(kk), primitive_lattice_vectors=lv, expansion=exp)
        yield {"ev": "tw", "lats": [L] * len(Ls), "g": g, "k0": k0.tolist(), "kd": 7, "shape": obs.shape(k),
               "want": list(bshape) + [len(g), 2], "k": obs.fix(k * sc / (2 * np.pi), S)}

    bz = tuple(s["bz"])
    k = basis.brillouin_zone_in_plane_wavevector(brillouin_grid_shape=bz, primitive_lattice_vectors=lv)
    yield {"ev": "bz", "lat": L, "bz": list(bz), "shape": obs.shape(k), "k": obs.fix(k * sc / (2 * np.pi), S)}

    for b in s.get("counts", []):
        k = basis.brillouin_zone_in_plane_wavevector(
            brillouin_grid_shape=tuple(b), primitive_lattice_vectors=lib.lattice([[1.0, 0.0], [0.0, 1.0]]))
        kn = np.asarray(k) / (2 * np.pi)
        yield {"ev": "bzcount", "bz": b, "shape": obs.shape(k), "first": obs.fix1(kn[0, 0, 0], S), "last": obs.fix1(kn[-1, -1, 0], S)}

    # Plane waves: every polar / azimuthal pair, batched.
    cs = []
    th, ph, wl, ep = [], [], [], []
    for i in range(12):
        t = ANG[int(rng.integers(0, 6))]
        p = ANG[int(rng.integers(0, len(ANG)))]
        n_, nd = [(1, 1), (3, 2), (2, 1), (7, 5)][int(rng.integers(0, 4))]
        ln, ld = [(1, 1), (1, 2), (3, 4), (5, 2)][int(rng.integers(0, 4))]
        cs.append({"st": t[0], "sd": t[2], "sp": p[0], "cp": p[1], "pd": p[2], "n": n_, "nd": nd, "ln": ln, "ld": ld})
        th.append(np.arctan2(t[0], t[1]))
        ph.append(np.arctan2(p[0], p[1]))
        wl.append(ln / ld)
        ep.append((n_ / nd) ** 2)
    sh = (3, 4) if s["sid"] % 2 else (12,)
    r = lambda v: jnp.asarray(np.array(v).reshape(sh))
    eps = r(ep) if s["sid"] % 4 < 2 else r(ep).astype(complex)
    k = basis.plane_wave_in_plane_wavevector(wavelength=r(wl), polar_angle=r(th), azimuthal_angle=r(ph), permittivity=eps)
    yield {"ev": "pw", "c": cs, "shape": obs.shape(k), "want": list(sh) + [2], "k": obs.fix(k / (2 * np.pi), S)}

"""Material distributions with the arrays that define them, and independent Fourier matrices."""

import numpy as np

import lib
import stacks

KINDS = ["iso", "isolossy", "isometal", "isofine", "uniform", "uniformlossy", "constant", "aniso", "anisolossy", "gyro", "unianiso",
         "magnetic", "magneticlossy", "unimagnetic", "constgen"]
FORMS = ["fft", "pol", "normal", "jones", "jones_direct", "jones_direct_fourier", "pol_fourier", "normal_fourier", "jones_fourier"]


def material(kind, seed, shape):
    """(api, eps5, mu5) with api in iso/aniso/gen; arrays (nx, ny) or (1, 1)."""
    rng = np.random.default_rng([21, seed])
    one = lambda sh: np.ones(sh, dtype=complex)
    zero = lambda sh: np.zeros(sh, dtype=complex)
    isot = lambda e: [e, 0 * e, 0 * e, e, e]
    vac = lambda sh: [one(sh), zero(sh), zero(sh), one(sh), one(sh)]
    if kind in ("iso", "isolossy", "isometal", "isofine"):
        if kind == "isometal":
            e = lib.pattern(seed, shape, 1.3, 2.0, 0.0) + 0j
            e = np.where(e.real > 1.35, -5 + 0.6j, 1.9)
        elif kind == "isofine":
            e = lib.pattern(seed, shape, 1.2, 5.0, 0.3, blocks=False)
        else:
            e = lib.pattern(seed, shape, 1.3, 5.0, 0.8 if kind == "isolossy" else 0.0)
        return "iso", isot(e), vac(shape)
    if kind in ("uniform", "uniformlossy", "constant"):
        v = complex(rng.uniform(1.2, 6.0)) if kind != "uniformlossy" else complex(rng.uniform(-3, 5), rng.uniform(0.2, 1.0))
        sh = shape if kind == "constant" else (1, 1)
        return "iso", isot(np.full(sh, v, dtype=complex)), vac(sh)
    if kind in ("aniso", "anisolossy", "gyro"):
        if kind == "anisolossy":
            t = lib.tensor(seed, shape, lo=2.0, hi=4.0, off=0.25, loss=0.5)
        else:
            t = lib.tensor(seed, shape, lo=2.0, hi=4.0, off=0.25, hermitian=kind == "gyro")
        return "aniso", t, vac(shape)
    if kind in ("magnetic", "magneticlossy"):
        ls = 0.5 if kind == "magneticlossy" else 0.0
        return "gen", lib.tensor(seed, shape, lo=2.0, hi=4.0, off=0.2, loss=ls), \
            lib.tensor(seed + 7, shape, lo=1.0, hi=1.9, off=0.15, loss=ls)
    # Homogeneous tensors.
    sh = shape if kind == "constgen" else (1, 1)
    f = lambda v: np.full(sh, v, dtype=complex)
    v = rng.uniform(1.5, 4.0, size=3)
    e = [f(v[0]), f(rng.uniform(-0.3, 0.3)), f(rng.uniform(-0.3, 0.3)), f(v[1] + 0.3j), f(v[2])]
    if kind == "unianiso":
        return "aniso", e, vac(sh)
    m = rng.uniform(1.0, 2.0, size=3)
    return "gen", e, [f(m[0]), f(rng.uniform(-0.2, 0.2)), f(rng.uniform(-0.2, 0.2) + 0.05j), f(m[1]), f(m[2] + 0.1j)]


def solve(api, eps, mu, wl, k, uv, exp, formulation="fft", source=None):
    if api == "iso":
        return lib.iso(wl, k, uv, eps[0], exp, formulation)
    return lib.gen(wl, k, uv, eps, None if api == "aniso" else mu, exp, formulation, source)


# -- independent Fourier matrices ---------------------------------------------------


def coefficients(x, exp):
    """Fourier coefficients at all differences of orders: dict (m, n) -> value."""
    x = np.asarray(x)
    nx, ny = x.shape
    g = np.asarray(exp.basis_coefficients)
    out = {}
    i = np.arange(nx)[:, None]
    j = np.arange(ny)[None, :]
    for p in g:
        for q in g:
            d = (int(p[0] - q[0]), int(p[1] - q[1]))
            if d not in out:
                out[d] = (x * np.exp(-2j * np.pi * (d[0] * i / nx + d[1] * j / ny))).mean()
    return out


def conv(x, exp):
    g = np.asarray(exp.basis_coefficients)
    if np.shape(x) == (1, 1):
        return np.eye(len(g)) * complex(np.asarray(x)[0, 0])
    c = coefficients(x, exp)
    return np.array([[c[(int(p[0] - q[0]), int(p[1] - q[1]))] for q in g] for p in g])


def displacement_matrices(api, eps, mu, exp, sol, formulation):
    """(E, M): D_(x,y) = E E_(x,y), B_(x,y) = M H_(x,y), blocks in x, y order."""
    c = lambda x: conv(x, exp)
    if formulation == "fft" or eps[0].shape == (1, 1):
        return np.block([[c(eps[0]), c(eps[1])], [c(eps[2]), c(eps[3])]]), np.block([[c(mu[0]), c(mu[1])], [c(mu[2]), c(mu[3])]])
    tx, ty = [np.asarray(t) for t in sol.tangent_vector_field]
    if api == "iso":
        n2 = np.abs(tx)**2 + np.abs(ty)**2
        ok = n2 > 1e-8
        s = np.where(ok, n2, 1.0)
        # Projector on the normal of t, in (x, y).
        nxx, nxy = np.where(ok, np.abs(ty)**2 / s, 0), np.where(ok, -tx * ty.conj() / s, 0)
        nyx, nyy = np.where(ok, -ty * tx.conj() / s, 0), np.where(ok, np.abs(tx)**2 / s, 0)
        e = c(eps[0])
        d = e - np.linalg.inv(c(1 / eps[0]))
        z = np.zeros_like(e)
        E = np.block([[e, z], [z, e]]) - np.block([[d, z], [z, d]]) @ np.block([[c(nxx), c(nxy)], [c(nyx), c(nyy)]])
        return E, np.eye(2 * len(e))
    # Anisotropic: basis (t, n) with n = (-conj ty, conj tx), Laurent for tangential and mixed, inverse rule for nn.
    def mat(ten):
        R = np.stack([np.stack([tx, -ty.conj()], -1), np.stack([ty, tx.conj()], -1)], -2)
        T = np.stack([np.stack([ten[0], ten[1]], -1), np.stack([ten[2], ten[3]], -1)], -2)
        L = np.linalg.solve(R, T @ R)
        mid = np.block([[c(L[..., 0, 0]), c(L[..., 0, 1])], [c(L[..., 1, 0]), np.linalg.inv(c(1 / L[..., 1, 1]))]])
        fr = np.block([[c(tx), c(-ty.conj())], [c(ty), c(tx.conj())]])
        n2 = np.abs(tx)**2 + np.abs(ty)**2
        fi = np.block([[c(tx.conj() / n2), c(ty.conj() / n2)], [c(-ty / n2), c(tx / n2)]])
        return fr @ mid @ fi
    return mat(eps), mat(mu)

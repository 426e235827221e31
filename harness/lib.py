"""Input builders shared by the drivers. Only public fmmax names are used."""

import functools

import jax
import jax.numpy as jnp
import numpy as np

from fmmax import basis, fields, fmm, scattering, utils  # noqa: F401

C = jnp.complex128


def lattice(uv):
    u, v = uv
    return basis.LatticeVectors(u=jnp.asarray(u, dtype=jnp.float64), v=jnp.asarray(v, dtype=jnp.float64))


def expansion(coeffs):
    return basis.Expansion(basis_coefficients=np.asarray(coeffs, dtype=int))


def gen_expansion(uv, n, trunc="circular"):
    return basis.generate_expansion(
        primitive_lattice_vectors=lattice(uv), approximate_num_terms=n,
        truncation=basis.Truncation.CIRCULAR if trunc == "circular" else basis.Truncation.PARALLELOGRAMIC)


def form(name):
    return fmm.Formulation(name) if isinstance(name, str) else name


def smooth(rng, shape, lo, hi, batch=()):
    """A random smooth-ish random-valued array in [lo, hi] (not band limited)."""
    return rng.uniform(lo, hi, size=tuple(batch) + tuple(shape))


def pattern(seed, shape=(12, 11), lo=1.5, hi=4.0, loss=0.0, batch=(), blocks=True):
    """An asymmetric inclusion pattern; distinct in each batch element."""
    out = np.zeros(tuple(batch) + tuple(shape), dtype=complex)
    flat = out.reshape((-1,) + tuple(shape))
    for b in range(flat.shape[0]):
        rng = np.random.default_rng([13, seed, b])
        nx, ny = shape
        a = np.full(shape, lo, dtype=complex)
        if blocks:
            for _ in range(2):
                w = max(1, int(nx * rng.uniform(0.2, 0.6)))
                h = max(1, int(ny * rng.uniform(0.2, 0.6)))
                i = rng.integers(0, nx)
                j = rng.integers(0, ny)
                ii = (i + np.arange(w)) % nx
                jj = (j + np.arange(h)) % ny
                a[np.ix_(ii, jj)] = rng.uniform(0.6 * hi, hi) + 1j * loss * rng.uniform(0.3, 1.0)
        else:
            a = rng.uniform(lo, hi, size=shape) + 1j * loss * rng.uniform(0, 1, size=shape)
        flat[b] = a + 1j * loss * 0.1
    return out


def iso(wl, k, uv, eps, exp, formulation="fft"):
    return fmm.eigensolve_isotropic_media(
        wavelength=jnp.asarray(wl), in_plane_wavevector=jnp.asarray(k, dtype=jnp.float64),
        primitive_lattice_vectors=lattice(uv), permittivity=jnp.asarray(eps),
        expansion=exp, formulation=form(formulation))


def gen(wl, k, uv, eps, mu, exp, formulation="fft", source=None):
    """eps, mu: (xx, xy, yx, yy, zz); mu None selects the nonmagnetic entry point."""
    e = [jnp.asarray(x) for x in eps]
    kw = dict(
        wavelength=jnp.asarray(wl), in_plane_wavevector=jnp.asarray(k, dtype=jnp.float64),
        primitive_lattice_vectors=lattice(uv),
        permittivity_xx=e[0], permittivity_xy=e[1], permittivity_yx=e[2], permittivity_yy=e[3],
        permittivity_zz=e[4], expansion=exp, formulation=form(formulation))
    if mu is None:
        return fmm.eigensolve_anisotropic_media(**kw)
    m = [jnp.asarray(x) for x in mu]
    return fmm.eigensolve_general_anisotropic_media(
        **kw, permeability_xx=m[0], permeability_xy=m[1], permeability_yx=m[2],
        permeability_yy=m[3], permeability_zz=m[4], vector_field_source=source)


def tensor(seed, shape, batch=(), lo=1.5, hi=3.5, off=0.3, loss=0.0, hermitian=False, blocks=True):
    xx = pattern(seed, shape, lo, hi, loss, batch, blocks)
    yy = pattern(seed + 101, shape, lo, hi, loss, batch, blocks)
    zz = pattern(seed + 202, shape, lo, hi, loss, batch, blocks)
    xy = off * (pattern(seed + 303, shape, -1, 1, 0.0, batch, blocks))
    if hermitian:
        xy = xy + 1j * off * pattern(seed + 404, shape, -1, 1, 0.0, batch, blocks)
        yx = np.conj(xy)
    else:
        yx = 0.7 * off * (pattern(seed + 505, shape, -1, 1, 0.0, batch, blocks))
    return [xx, xy, yx, yy, zz]


# -- dense reference -------------------------------------------------------------


def interface_matrices(sol):
    """(phi, psi): tangential fields H = phi (a + b), E = psi (a - b)."""
    q = np.asarray(sol.eigenvalues)
    phi = np.asarray(sol.eigenvectors)
    psi = np.asarray(sol.omega_script_k_matrix) @ phi / q[..., None, :]
    return q, phi, psi


def dense_amplitudes(layers, thicknesses, a0, bN):
    """All amplitudes of a stack from one dense global linear system.

    a0, bN: (..., 2N, m) incident amplitudes. Returns lists (a_i), (b_i).
    """
    n = a0.shape[-2]
    L = len(layers)
    mats = []
    for s, t in zip(layers, thicknesses):
        q, phi, psi = interface_matrices(s)
        f = np.exp(1j * q * np.asarray(t))
        mats.append((phi, psi, f))
    batch = np.broadcast_shapes(
        a0.shape[:-2], bN.shape[:-2], *[m[0].shape[:-2] for m in mats], *[m[1].shape[:-2] for m in mats],
        *[m[2].shape[:-1] for m in mats])
    m = a0.shape[-1]
    a0 = np.broadcast_to(a0, batch + (n, m))
    bN = np.broadcast_to(bN, batch + (n, m))
    A = np.zeros(batch + (2 * n * L, 2 * n * L), dtype=complex)
    R = np.zeros(batch + (2 * n * L, m), dtype=complex)
    eye = np.eye(n)
    row = 0
    A[..., 0:n, 0:n] = eye
    R[..., 0:n, :] = a0
    row = n
    for i in range(L - 1):
        phi, psi, f = mats[i]
        phj, psj, fj = mats[i + 1]
        ai = slice(2 * n * i, 2 * n * i + n)
        bi = slice(2 * n * i + n, 2 * n * (i + 1))
        aj = slice(2 * n * (i + 1), 2 * n * (i + 1) + n)
        bj = slice(2 * n * (i + 1) + n, 2 * n * (i + 2))
        r1 = slice(row, row + n)
        r2 = slice(row + n, row + 2 * n)
        A[..., r1, ai] = phi * f[..., None, :]
        A[..., r1, bi] = phi
        A[..., r1, aj] = -phj
        A[..., r1, bj] = -phj * fj[..., None, :]
        A[..., r2, ai] = psi * f[..., None, :]
        A[..., r2, bi] = -psi
        A[..., r2, aj] = -psj
        A[..., r2, bj] = psj * fj[..., None, :]
        row += 2 * n
    A[..., row:row + n, 2 * n * L - n:] = eye
    R[..., row:row + n, :] = bN
    x = np.linalg.solve(A, R)
    av = [x[..., 2 * n * i:2 * n * i + n, :] for i in range(L)]
    bv = [x[..., 2 * n * i + n:2 * n * (i + 1), :] for i in range(L)]
    return av, bv


def dense_s(layers, thicknesses):
    n = layers[0].eigenvalues.shape[-1]
    eye = np.eye(n, dtype=complex)
    zero = np.zeros((n, n), dtype=complex)
    a0 = np.concatenate([eye, zero], axis=-1)
    bN = np.concatenate([zero, eye], axis=-1)
    av, bv = dense_amplitudes(layers, thicknesses, a0, bN)
    return av[-1][..., :n], av[-1][..., n:], bv[0][..., :n], bv[0][..., n:]


@functools.lru_cache(maxsize=None)
def _jit(fn):
    return jax.jit(fn)

"""C10 driver: many descriptions of one layer."""

import functools

import jax.numpy as jnp
import numpy as np

import lib
import mats
import obs
import planar
import stacks
from fmmax import fmm, scattering, vector

J = jnp.asarray
EXP = {"e5": ([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]], (7, 6)), "e3": ([[0, 0], [1, 0], [-1, 0]], (8, 5)),
       "e7": ([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1]], (9, 8))}


def values(kind, rng, shape, loss):
    """eps5, mu5 as (nx, ny) arrays, or scalars for homogeneous kinds."""
    c = lambda lo, hi: complex(np.round(rng.uniform(lo, hi), 3), np.round(loss * rng.uniform(0.1, 0.6), 3))
    o = lambda a: complex(np.round(rng.uniform(-a, a), 3), np.round(loss * rng.uniform(-0.05, 0.05), 3))
    one = [1.0, 0.0, 0.0, 1.0, 1.0]
    if kind == "hom_iso":
        e = c(1.2, 6)
        return [e, 0, 0, e, e], one
    if kind == "hom_tensor":
        return [c(1.5, 4), o(0.4), o(0.4), c(1.5, 4), c(1.5, 4)], one
    if kind == "hom_gen":
        return [c(1.5, 4), o(0.4), o(0.4), c(1.5, 4), c(1.5, 4)], [c(1, 2), o(0.2), o(0.2), c(1, 2), c(1, 2)]
    pat = lambda lo, hi, sd: lib.pattern(int(sd), shape, lo, hi, loss * 0.5)
    sd = int(rng.integers(0, 10**6))
    z, u = np.zeros(shape, dtype=complex), np.ones(shape, dtype=complex)
    if kind == "pat_iso":
        e = pat(1.4, 5, sd)
        return [e, z, z, e, e], [u, z, z, u, u]
    if kind == "grating":
        e = np.broadcast_to(lib.pattern(sd, (shape[0], 1), 1.4, 5, loss * 0.5), shape).copy()
        return [e, z, z, e, e], [u, z, z, u, u]
    t = lib.tensor(sd, shape, lo=2.0, hi=4.0, off=0.25, loss=loss * 0.5)
    if kind == "pat_tensor":
        return t, [u, z, z, u, u]
    return t, lib.tensor(sd + 9, shape, lo=1.0, hi=1.9, off=0.15, loss=loss * 0.5)




def custom(form):
    """A callable equal to a builtin scheme, found through the public table of schemes."""
    fn = vector.VECTOR_FIELD_SCHEMES[form]
    return lambda arr, expansion, primitive_lattice_vectors: fn(arr, expansion, primitive_lattice_vectors)


def solve(d, eps, mu, wl, k, uv, exp, shape):
    full = {"unit": (1, 1), "const": shape, "const2": (shape[0] + 3, shape[1] + 2)}
    if d["lay"] in full:
        put = lambda x: J(np.full(full[d["lay"]], x, dtype=complex))
    elif d["lay"] == "line":
        put = lambda x: J(np.asarray(x)[:, :1])
    else:
        put = J
    E, M = [put(x) for x in eps], [put(x) for x in mu]
    f = custom(d["form"]) if d["call"] else fmm.Formulation(d["form"])
    kw = dict(wavelength=J(wl), in_plane_wavevector=J(k), primitive_lattice_vectors=lib.lattice(uv), expansion=exp, formulation=f)
    if d["api"] == "iso":
        return fmm.eigensolve_isotropic_media(permittivity=E[0], **kw)
    kw.update({f"permittivity_{c}": E[i] for i, c in enumerate(("xx", "xy", "yx", "yy", "zz"))})
    if d["api"] == "aniso":
        return fmm.eigensolve_anisotropic_media(**kw)
    kw.update({f"permeability_{c}": M[i] for i, c in enumerate(("xx", "xy", "yx", "yy", "zz"))})
    if d["src"] == "explicit":
        kw["vector_field_source"] = (E[0] + E[3]) / 2
    return fmm.eigensolve_general_anisotropic_media(**kw)


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 10])
    coeffs, shape = EXP[s["exp"]]
    exp = lib.expansion(coeffs)
    uv, wl, k = stacks.geometry(rng, s["exp"])
    eps, mu = values(s["kind"], rng, shape, s["loss"])
    amb = [lib.iso(wl, k, uv, np.full((1, 1), e + 0j), exp) for e in (1.0, 2.1)]
    sc = {}
    def scaled(name, v):
        v = np.concatenate([np.ravel(np.asarray(x)) for x in v])
        sc.setdefault(name, max(1e-3, float(np.abs(v[np.isfinite(v)]).max()) if np.isfinite(v).any() else 1.0))
        return obs.fingerprint(v / sc[name], 6, 10, 10**7)
    picked = {}
    for d in s["descs"]:
        sol = solve(d, eps, mu, wl, k, uv, exp, shape)
        q, phi = np.asarray(sol.eigenvalues), np.asarray(sol.eigenvectors)
        A = phi @ (q[:, None]**2 * np.linalg.inv(phi)) if np.isfinite(phi).all() else phi * np.nan
        S = scattering.stack_s_matrix([amb[0], sol, amb[1]], [J(0.0), J(0.37), J(0.1)])
        m5 = [sol.z_permittivity_matrix, sol.inverse_z_permittivity_matrix, sol.z_permeability_matrix, sol.inverse_z_permeability_matrix,
              sol.transverse_permeability_matrix]
        yield {"ev": "desc", "kind": s["kind"], "desc": d, "imq": obs.fix(q.imag * obs.directions(q)[1], 1e9 / max(1.0, np.abs(q).max() / 2) if np.isfinite(q).all() else 1e9),
               "vals": {"modes": scaled("A", [A]), "mats": scaled("m", m5), "smat": scaled("S", [S.s11, S.s12, S.s21, S.s22])}}
        picked[d["api"]] = (d, m5)
    # Entries of the layer matrices.
    for d, m5 in picked.values():
        full = {"unit": (1, 1), "const": shape, "const2": (shape[0] + 3, shape[1] + 2)}
        for name, src, mat in (("zz", eps[4], m5[0]), ("izz", 1 / np.asarray(eps[4]), m5[1]), ("mzz", mu[4], m5[2]), ("imzz", 1 / np.asarray(mu[4]), m5[3])):
            arr = np.full((1, 1), src, dtype=complex) if d["lay"] in full else np.asarray(src)
            i, j = (int(v) for v in rng.integers(0, len(coeffs), size=2))
            # A constant array has only the zeroth coefficient.
            o = [coeffs[i][0] - coeffs[j][0], coeffs[i][1] - coeffs[j][1]]
            if arr.shape == (1, 1):
                arr = np.full((5, 5), arr[0, 0])
            if np.abs(arr).max() > 20 or not np.isfinite(mat[i, j]):
                continue
            yield {"ev": "fourier", "nx": arr.shape[0], "ny": arr.shape[1], "m": int(o[0]), "n": int(o[1]), "arr": [planar.cx(v) for v in arr.ravel()],
                   "got": planar.cx(mat[i, j])}

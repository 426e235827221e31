"""C22 driver: acceptance or rejection of arguments, by contract (see spec/C22Ops.tla)."""

import dataclasses
import functools

import jax
import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import basis, beams, farfield, fft, fields, fmm, pml, scattering, sources, utils

UV = [[1.0, 0.1], [-0.2, 0.9]]
COEF = [[0, 0], [1, 0], [0, -1]]
N = 3


def arr(shape, kind=float):
    """Distinct values, away from zero."""
    shape = tuple(shape)
    x = 0.3 + 0.01 * np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    return jnp.asarray(x.astype(kind))


@functools.lru_cache(None)
def layer(batch=()):
    k = jnp.asarray([0.3, -0.2]) * jnp.ones(batch + (1,))
    return fmm.eigensolve_isotropic_media(
        wavelength=jnp.asarray(0.9), in_plane_wavevector=k, primitive_lattice_vectors=lib.lattice(UV),
        permittivity=jnp.full((1, 1), 2.0 + 0.1j), expansion=lib.expansion(COEF), formulation=fmm.Formulation.FFT)


@functools.lru_cache(None)
def lsr(batch):
    """A patterned layer that has a tangent vector field."""
    return fmm.eigensolve_isotropic_media(
        wavelength=jnp.asarray(0.9), in_plane_wavevector=jnp.asarray([0.3, -0.2]) * jnp.ones(batch + (1,)), primitive_lattice_vectors=lib.lattice(UV),
        permittivity=jnp.asarray(lib.pattern(3, (4, 5), 1.5, 3.0, 0.1)), expansion=lib.expansion(COEF), formulation=fmm.Formulation.POL)


def wide(g, sgn):
    return lib.expansion([[0, 0]] + [[sgn * g[0], 0]] * (g[0] > 0) + [[0, -sgn * g[1]]] * (g[1] > 0))


def c_lattice(s):
    return basis.LatticeVectors(u=arr(s["u"]), v=arr(s["v"]))


def c_expansion(s):
    return basis.Expansion(basis_coefficients=np.arange(int(np.prod(s["s"]))).reshape(s["s"]))


def c_bz(s):
    return basis.brillouin_zone_in_plane_wavevector(tuple(s["s"]), lib.lattice(UV))


def c_minshape(s):
    exp, sh, fn = wide(s["g"], s["sgn"]), tuple(s["s"]), s["fn"]
    if fn == "fft":
        return fft.fft(arr(sh), expansion=exp)
    if fn == "fft_axes":
        return fft.fft(arr((2,) + sh + (9,)), expansion=exp, axes=(1, 2))
    if fn == "conv":
        return fft.fourier_convolution_matrix(arr(sh), exp)
    if fn == "ifft":
        return fft.ifft(arr((exp.num_terms, 9), complex), expansion=exp, shape=sh, axis=0)
    kw = dict(wavelength=jnp.asarray(0.9), in_plane_wavevector=jnp.asarray([0.3, -0.2]), primitive_lattice_vectors=lib.lattice(UV), expansion=exp, formulation=fmm.Formulation.FFT)
    if fn == "grid":
        sol = fmm.eigensolve_isotropic_media(permittivity=jnp.full((1, 1), 2.0 + 0.1j), **kw)
        f = tuple(arr((exp.num_terms, 1), complex) for _ in range(3))
        return fields.fields_on_grid(f, f, sol, shape=sh, num_unit_cells=(1, 1))
    e = jnp.asarray(1.5 + 0.4 * np.random.default_rng([3, *sh]).uniform(size=sh) + 0.1j)
    if fn == "iso":
        return fmm.eigensolve_isotropic_media(permittivity=e, **kw).eigenvalues
    c = dict(zip(("xx", "xy", "yx", "yy", "zz"), (e, 0 * e, 0 * e, e, e)))
    return fmm.eigensolve_general_anisotropic_media(**{f"permittivity_{k}": v for k, v in c.items()}, **{f"permeability_{k}": v for k, v in c.items()}, **kw).eigenvalues


def c_ifft(s):
    return fft.ifft(arr((s["t"],), complex), expansion=lib.expansion(COEF), shape=tuple(s["s"]))


def c_eig(s):
    u, v = jnp.asarray(UV[0]) * jnp.ones(tuple(s["u"]) + (1,)), jnp.asarray(UV[1]) * jnp.ones(tuple(s["v"]) + (1,))
    return fmm.eigensolve_isotropic_media(
        wavelength=0.8 + arr(s["w"]), in_plane_wavevector=arr(s["k"]), primitive_lattice_vectors=basis.LatticeVectors(u=u, v=v),
        permittivity=2.0 + arr(tuple(s["p"]) + (1, 1), complex), expansion=lib.expansion(COEF), formulation=fmm.Formulation.FFT).eigenvalues


def c_tensor(s):
    n = 5 if s["fn"] == "aniso" else 10
    base = [2.0, 0.1, 0.2, 2.5, 3.0, 1.1, 0.05, 0.02, 1.2, 1.3]
    mk = lambda i, sh: jnp.asarray(base[i] * (1 + 0.1 * np.random.default_rng([5, i, *sh]).uniform(size=tuple(sh))) + 0j)
    comp = [mk(i, s["s"] if i == s["i"] else s["base"]) for i in range(n)]
    return lib.gen(jnp.asarray(0.9), jnp.asarray([0.3, -0.2]), UV, comp[:5], comp[5:] if n == 10 else None, lib.expansion(COEF)).eigenvalues


def c_amps(s):
    a, b, sol, fn = arr(s["a"], complex), arr(s["b"], complex), layer(), s["fn"]
    t = jnp.asarray(0.2)
    if fn == "propagate":
        return fields.propagate_amplitude(a, t, sol)
    if fn == "colocate":
        return fields.colocate_amplitudes(a, b, z_offset=0.5 * t, layer_solve_result=sol, layer_thickness=t)
    if fn == "flux":
        return fields.amplitude_poynting_flux(a, b, sol)
    if fn == "directional":
        return fields.directional_poynting_flux(a, b, sol)
    if fn == "fields":
        return fields.fields_from_wave_amplitudes(a, b, sol)
    return fields.layer_fields_3d(a, b, sol, layer_thickness=t, layer_znum=2, grid_shape=(3, 4), num_unit_cells=(1, 1))


def c_modes(s):
    f = [arr(s["b"] if i == s["i"] else s["a"], complex) for i in range(6)]
    if s["fn"] == "grid":
        return fields.fields_on_grid(tuple(f[:3]), tuple(f[3:]), layer(), shape=(3, 4), num_unit_cells=(1, 2))
    return fields.fields_on_coordinates(tuple(f[:3]), tuple(f[3:]), layer(), x=arr((2,)), y=arr((2,)))


def c_lens(s):
    l, fn = s["l"], s["fn"]
    L, T = [layer()] * l[-2 if fn in ("stack", "interior", "scan") else 1], [jnp.asarray(0.1 + 0.1 * i) for i in range(l[-1 if fn in ("stack", "interior", "scan") else 2])]
    if fn == "stack":
        return scattering.stack_s_matrix(L, T).s11
    if fn == "interior":
        return [x.s11 for p in scattering.stack_s_matrices_interior(L, T) for x in p]
    if fn == "scan":
        return scattering.stack_s_matrix_scan(jax.tree_util.tree_map(lambda *x: jnp.stack(x), *L), jnp.stack(T)).s11
    A = [(arr((2 * N, 2), complex), arr((2 * N, 2), complex))] * l[0]
    if fn == "auto":
        return fields.stack_fields_3d_auto_grid(A, L, T, grid_spacing=0.3, num_unit_cells=(1, 1))
    Z = [2] * l[3]
    if fn == "fields":
        return fields.stack_fields_3d(A, L, T, layer_znum=Z, grid_shape=(3, 4), num_unit_cells=(1, 1))
    return fields.stack_fields_3d_on_coordinates(A, L, T, layer_znum=Z, x=arr((2,)), y=arr((2,)))


def c_location(s):
    kw = dict(location=arr(s["s"]), in_plane_wavevector=arr((s["k"],)), primitive_lattice_vectors=lib.lattice(UV), expansion=lib.expansion(COEF))
    return sources.dirac_delta_source(**kw) if s["fn"] == "dirac" else sources.gaussian_source(fwhm=jnp.asarray(0.2), **kw)


def c_dipole(s):
    kw = dict(jx=arr(s["x"], complex), jy=arr(s["y"], complex), jz=arr(s["z"], complex))
    if s["fn"] == "terms":
        return sources.polarization_terms(layer_solve_result=layer(), **kw)
    sm = smatrix()
    return sources.amplitudes_for_source(s_matrix_before_source=sm, s_matrix_after_source=sm, **kw)


@functools.lru_cache(None)
def smatrix():
    return scattering.stack_s_matrix([layer(), layer()], [jnp.asarray(0.1), jnp.asarray(0.2)])


def c_part(s):
    x, a = lsr(tuple(s["b"])), s["attr"]
    v = arr(s["s"], complex)
    if a in ("u", "v"):
        lv = basis.LatticeVectors(**{**{k: getattr(x.primitive_lattice_vectors, k) for k in "uv"}})
        setattr(lv, a, v.real)  # not through the validation of LatticeVectors
        return dataclasses.replace(x, primitive_lattice_vectors=lv).eigenvalues
    if a == "tangent_vector_field":
        return dataclasses.replace(x, tangent_vector_field=(v, v)).eigenvalues
    return dataclasses.replace(x, **{a: v}).eigenvalues


def c_truncation(s):
    v = {"CIRCULAR": basis.Truncation.CIRCULAR, "PARALLELOGRAMIC": basis.Truncation.PARALLELOGRAMIC, "none": None, "circular": "round", "other": 7}[s["v"]]
    return basis.generate_expansion(lib.lattice(UV), approximate_num_terms=9, truncation=v).basis_coefficients


def c_pml(s):
    return pml.apply_uniaxial_pml(1.5 + arr(s["s"], complex), pml.PMLParams(num_x=s["w"][0], num_y=s["w"][1]))


def c_same(s):
    x = [arr(sh) for sh in s["l"]]
    if s["fn"] == "beam":
        z = jnp.asarray
        fn = lambda x, y, z: ((x, y, z), (y, z, x))
        return beams.shifted_rotated_fields(fn, *x, beam_origin_x=z(0.1), beam_origin_y=z(0.2), beam_origin_z=z(0.3), polar_angle=z(0.4), azimuthal_angle=z(0.5), polarization_angle=z(0.6))
    f = tuple(arr((N, 2), complex) for _ in range(3))
    return fields.fields_on_coordinates(f, f, layer(), x=x[0], y=x[1])


def c_incident(s):
    b = tuple(s["batch"])
    f = [arr(b + tuple(s["other"] if i == s["which"] else s["s"]) + (2,), complex) for i in range(4)]
    return sources.amplitudes_for_fields(*f, layer_solve_result=layer((2, 3)), brillouin_grid_axes=tuple(s["axes"]))


def c_incident0(s):
    f = [arr(s["other"] if i == s["which"] else s["s"], complex) for i in range(4)]
    return sources.amplitudes_for_fields(*f, layer_solve_result=layer())


def c_flat(s):
    return jnp.nan_to_num(farfield.unflatten(arr(s["s"]), lib.expansion(COEF)))


def c_flux(s):
    return jnp.nan_to_num(farfield.unflatten_flux(arr(s["s"]), lib.expansion(COEF), brillouin_grid_axes=tuple(s["axes"])))


def c_kt(s):
    return jnp.nan_to_num(farfield.unflatten_transverse_wavevectors(arr(s["s"]), lib.expansion(COEF), brillouin_grid_axes=tuple(s["axes"])))


def c_upsample(s):
    lat = lib.lattice(UV)
    return farfield.integrated_flux(
        flux=arr((2, 2, 2 * N, 1)), wavelength=jnp.asarray(0.4), in_plane_wavevector=basis.brillouin_zone_in_plane_wavevector((2, 2), lat), primitive_lattice_vectors=lat,
        expansion=lib.expansion(COEF), brillouin_grid_axes=(0, 1), angle_bounds_fn=lambda p, a: p < 1.0, upsample_factor=s["f"])


FN = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def finite(x):
    return all(bool(np.all(np.isfinite(np.asarray(v)))) for v in jax.tree_util.tree_leaves(x) if hasattr(v, "dtype"))


def one(s):
    rec = {k: v for k, v in s.items() if k not in ("sid", "seed")}
    if s["c"] == "axes":
        try:
            return {"ev": "axes", **rec, "raised": False, "out": [int(a) for a in utils.absolute_axes(tuple(s["axes"]), s["n"])]}
        except Exception:
            return {"ev": "axes", **rec, "raised": True, "out": []}
    if s["c"] == "compat":
        return {"ev": "compat", **rec, "out": bool(utils.batch_compatible_shapes(*[tuple(x) for x in s["l"]]))}
    try:
        return {"ev": "case", **rec, "raised": False, "finite": finite(FN[s["c"]](s)), "why": ""}
    except Exception as e:
        return {"ev": "case", **rec, "raised": True, "finite": False, "why": f"{type(e).__name__}: {e}"[:120]}


def run(s):
    for x in s["cases"]:
        yield one(x)

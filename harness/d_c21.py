"""C21 driver: pytrees, equality of structures, and compiled functions in call histories."""

import dataclasses
import enum

import jax
import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import basis, beams, farfield, fft, fields, fmm, pml, scattering, sources, utils, vector

J = jnp.asarray
POOL = {
    "a": [[0, 0], [1, 0], [-1, 0]], "b": [[0, 0], [-1, 0], [1, 0]], "c": [[0, 0], [0, 1], [0, -1]], "d": [[0, 0], [1, 0], [0, 1]],
    "e": [[0, 0], [-1, 0], [0, 1]], "f": [[0, 0], [1, 1], [-1, -1]], "g": [[0, 0], [1, -1], [-1, 1]], "h": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]],
}


def fresh(name):
    return basis.Expansion(basis_coefficients=np.array(POOL[name], dtype=int))


def fp(x):
    x = np.asarray(x).astype(complex)
    return obs.fingerprint(np.where(np.isnan(x), -7.25, x), 4, 3, 10**6)


def invariant(sol):
    """Eigenvalue-squared operator of a layer: independent of the choice of eigenvectors."""
    q, phi = sol.eigenvalues, sol.eigenvectors
    return (phi * (q**2)[..., None, :]) @ jnp.linalg.inv(phi)


UV = [[1.0, 0.1], [-0.2, 0.9]]


def fn_fft(arr, exp, form):
    return fft.fft(arr, expansion=exp)


def fn_conv(arr, exp, form):
    return fft.fourier_convolution_matrix(arr, exp)


def fn_kt(arr, exp, form):
    return basis.transverse_wavevectors(J([0.1, 0.2]) * jnp.sum(arr.real), lib.lattice(UV), exp)


def fn_layer(arr, exp, form):
    sol = fmm.eigensolve_isotropic_media(
        wavelength=J(0.9), in_plane_wavevector=J([0.3, -0.2]), primitive_lattice_vectors=lib.lattice(UV), permittivity=arr, expansion=exp, formulation=form)
    return invariant(sol)


def fn_vec(arr, exp, form):
    tx, ty = vector.VECTOR_FIELD_SCHEMES[vector.POL if form is fmm.Formulation.FFT else vector.NORMAL](arr, exp, lib.lattice(UV))
    return jnp.stack([jnp.abs(tx) ** 2, jnp.abs(ty) ** 2, jnp.real(tx * ty.conj())])


def fn_unflatten(arr, exp, form):
    n = exp.num_terms
    return farfield.unflatten_flux(arr.real.ravel()[: 2 * n].reshape(1, 1, 2 * n, 1) * 1.0, exp, (0, 1))


def fn_delta(arr, exp, form):
    return sources.dirac_delta_source(location=J([[0.1, 0.3], [0.2, 0.0]]) * jnp.real(arr[0, 0]), in_plane_wavevector=J([0.3, -0.2]), primitive_lattice_vectors=lib.lattice(UV), expansion=exp)


FNS = {"fft": fn_fft, "conv": fn_conv, "kt": fn_kt, "layer": fn_layer, "vec": fn_vec, "unflatten": fn_unflatten, "delta": fn_delta}
FORMS = {"fft": fmm.Formulation.FFT, "pol": fmm.Formulation.POL, "jones": fmm.Formulation.JONES_DIRECT}
SHAPES = {"p": (8, 7), "q": (7, 8)}


def history(s):
    fn = FNS[s["fn"]]
    count = [0]

    def traced(arr, exp, form):
        count[0] += 1
        return fn(arr, exp, form)

    jf = jax.jit(traced)
    for h in s["hist"]:
        arr = J(lib.pattern(17 + h["val"], SHAPES[h["sig"]], 1.5, 4.0, 0.2))
        before = count[0]
        out = jf(arr, fresh(h["exp"]), FORMS[h["form"]])
        ref = fn(arr, fresh(h["exp"]), FORMS[h["form"]])
        yield {"ev": "call", "fn": s["fn"], "static": [POOL[h["exp"]], h["form"]], "sig": h["sig"], "traced": count[0] > before, "out": fp(out), "ref": fp(ref)}


def objects():
    exp = fresh("h")
    arr = J(lib.pattern(5, (8, 7), 1.5, 4.0, 0.2))
    layer = lambda f, e: fmm.eigensolve_isotropic_media(
        wavelength=J(0.9), in_plane_wavevector=J([0.3, -0.2]), primitive_lattice_vectors=lib.lattice(UV), permittivity=e, expansion=exp, formulation=f)
    l1, l2 = layer(fmm.Formulation.FFT, arr), layer(fmm.Formulation.POL, arr * 1.2)
    u = layer(fmm.Formulation.FFT, jnp.ones((1, 1), dtype=complex))
    out = {"lattice": lib.lattice(UV), "expansion": exp, "layer_fft": l1, "layer_pol": l2, "layer_uniform": u,
           "smatrix": scattering.stack_s_matrix([u, l2, l1], [J(0.1), J(0.2), J(0.3)]),
           "pml": pml.PMLParams(num_x=3, num_y=5, a_max=2.5, p=3.5, sigma_max=0.7), "pml_default": pml.PMLParams(num_x=1, num_y=2)}
    for t in basis.Truncation:
        out["truncation_" + t.value] = t
    for f in fmm.Formulation:
        out["formulation_" + f.value] = f
    return out


def fields_of(x, prefix=""):
    """(array fields, static fields) of an object, by attribute path."""
    arrays, static = {}, {}
    if isinstance(x, enum.Enum):
        return {}, {prefix + "value": x.value}
    if isinstance(x, basis.Expansion):
        return {}, {prefix + "coefficients": np.asarray(x.basis_coefficients).tolist()}
    if isinstance(x, pml.PMLParams):
        return {}, {prefix + k: str(float(v)) for k, v in dataclasses.asdict(x).items()}
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        if dataclasses.is_dataclass(v):
            a, st = fields_of(v, prefix + f.name + ".")
            arrays.update(a)
            static.update(st)
        elif isinstance(v, tuple):
            arrays.update({f"{prefix}{f.name}.{i}": fp(w) for i, w in enumerate(v)})
        elif v is None:
            static[prefix + f.name] = "none"
        else:
            arrays[prefix + f.name] = fp(v)
            static[prefix + f.name + ".shape"] = obs.shape(v)
    return arrays, static


def trees(s):
    for name, x in objects().items():
        if s["how"] == "flatten":
            leaves, tree = jax.tree_util.tree_flatten(x)
            y = jax.tree_util.tree_unflatten(tree, leaves)
            d = jax.tree_util.tree_unflatten(tree, [2 * l for l in leaves])
        elif s["how"] == "map":
            y, d = jax.tree_util.tree_map(lambda v: v, x), jax.tree_util.tree_map(lambda v: v + v, x)
        elif s["how"] == "jit":
            y, d = jax.jit(lambda v: v)(x), jax.jit(lambda v: jax.tree_util.tree_map(lambda w: 2 * w, v))(x)
        else:
            y = jax.lax.scan(lambda v, _: (v, None), x, None, length=2)[0]
            d = jax.lax.scan(lambda v, _: (jax.tree_util.tree_map(lambda w: 2 * w, v), None), x, None, length=1)[0]
        b, sb = fields_of(x)
        a, sa = fields_of(y)
        dd, _ = fields_of(d)
        if set(dd) != set(b):
            dd = {k: [] for k in b}
        yield {"ev": "tree", "name": name, "kind": type(x).__name__, "kind_after": type(y).__name__, "before": b, "after": a, "doubled": dd, "static_before": sb, "static_after": sa,
               "same_structure": jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(y)}


def keys(s):
    st = jax.tree_util.tree_structure
    names = list(POOL)
    items = [(["exp", POOL[n]], (lambda n=n: fresh(n))) for n in names] + [(["exp", POOL["a"]], lambda: fresh("a"))]
    items += [(["form", f.value], (lambda f=f: f)) for f in fmm.Formulation] + [(["trunc", t.value], (lambda t=t: t)) for t in basis.Truncation]
    P = [(1, 2, 4.0, 4.0, 1.0), (2, 1, 4.0, 4.0, 1.0), (1, 2, 4.5, 4.0, 1.0), (1, 2, 4.0, 4.5, 1.0), (1, 2, 4.0, 4.0, 1.5), (1, 2, 4.0, 4.0, 1.0)]
    items += [(["pml", [str(v) for v in p]], (lambda p=p: pml.PMLParams(*p))) for p in P]
    for i, (ka, fa) in enumerate(items):
        for kb, fb in items[i:]:
            if ka[0] != kb[0]:
                continue
            a, b = st(fa()), st(fb())
            yield {"ev": "key", "a": ka, "b": kb, "equal": a == b, "same_hash": hash(a) == hash(b)}


def jit(s):
    """Compiled and uncompiled versions of the functions of the library."""
    exp = fresh("h")
    lat = lib.lattice(UV)
    rng = np.random.default_rng([s["seed"], s["sid"]])
    arr = J(lib.pattern(s["seed"] + s["sid"], (8, 7), 1.5, 4.0, 0.2))
    k, wl = J(rng.uniform(-0.5, 0.5, size=2)), J(rng.uniform(0.8, 1.2))
    ten = [J(x) for x in lib.tensor(s["sid"], (8, 7))]
    mu = [J(x) for x in lib.tensor(s["sid"] + 9, (8, 7), lo=1.0, hi=1.6, off=0.1)]
    form = fmm.Formulation(s["form"])
    kw = dict(primitive_lattice_vectors=lat, expansion=exp)
    T = lambda p, v: {f"{p}_{c}": x for c, x in zip(("xx", "xy", "yx", "yy", "zz"), v)}
    iso = lambda e, w, q: fmm.eigensolve_isotropic_media(wavelength=w, in_plane_wavevector=q, permittivity=e, formulation=form, **kw)
    gen = lambda e, m, w, q: fmm.eigensolve_general_anisotropic_media(wavelength=w, in_plane_wavevector=q, formulation=fmm.Formulation.FFT if "pol" in s["form"] or "normal" in s["form"] else form, **T("permittivity", e), **T("permeability", m), **kw)
    uni = lambda v, w, q: fmm.eigensolve_isotropic_media(wavelength=w, in_plane_wavevector=q, permittivity=jnp.full((1, 1), v, dtype=complex), formulation=form, **kw)
    inc = J(rng.normal(size=(10, 1)) + 1j * rng.normal(size=(10, 1)))

    def stack(e, w, q, t):
        ls = [uni(1.0, w, q), iso(e, w, q), uni(2.0, w, q)]
        return ls, [t, t, t]

    def amps(e, w, q, t):
        ls, ts = stack(e, w, q, t)
        return ls, ts, fields.stack_amplitudes_interior(scattering.stack_s_matrices_interior(ls, ts), forward_amplitude_0_start=inc, backward_amplitude_N_end=0 * inc)

    def f_s(e, w, q, t):
        S = scattering.stack_s_matrix(*stack(e, w, q, t))
        return jnp.stack([S.s11, S.s12, S.s21, S.s22])

    def f_scan(e, w, q, t):
        ls = [uni(1.0, w, q), uni(3.0, w, q), uni(2.0, w, q)]
        S = scattering.stack_s_matrix_scan(jax.tree_util.tree_map(lambda *x: jnp.stack(x), *ls), jnp.stack([t, t, t]))
        return jnp.stack([S.s11, S.s12, S.s21, S.s22])

    def f_fields(e, w, q, t):
        ls, ts, am = amps(e, w, q, t)
        E, H, xyz = fields.stack_fields_3d(
            am, ls, ts, layer_znum=(2, 3, 2), grid_shape=(6, 5), num_unit_cells=(1, 2))
        return jnp.stack(list(E) + list(H))

    def f_flux(e, w, q, t):
        ls, ts, am = amps(e, w, q, t)
        return jnp.stack(fields.directional_poynting_flux(*am[2], ls[2]))

    def f_source(e, w, q, t):
        ls, ts = stack(e, w, q, t)
        j = sources.gaussian_source(fwhm=J(0.2), location=J([[0.1, 0.2]]), in_plane_wavevector=q, primitive_lattice_vectors=lat, expansion=exp)
        six = sources.amplitudes_for_source(jx=j, jy=2 * j, jz=0.5 * j, s_matrix_before_source=scattering.stack_s_matrix(ls[:2], ts[:2]), s_matrix_after_source=scattering.stack_s_matrix(ls[2:], ts[2:]))
        return jnp.stack([six[0], six[-1]])

    def f_pml(e, w, q, t):
        return jnp.stack([x for y in pml.apply_uniaxial_pml(e, pml.PMLParams(num_x=2, num_y=1)) for x in y])

    def f_beam(e, w, q, t):
        return beams.rotation_matrix(w, t, q[0])

    tests = {
        "iso": (lambda e, w, q, t: invariant(iso(e, w, q)), (arr, wl, k, J(0.2))), "gen": (lambda e, w, q, t: invariant(gen(ten, mu, w, q)) + 0 * e[0, 0], (arr, wl, k, J(0.2))),
        "s": (f_s, (arr, wl, k, J(0.2))), "scan": (f_scan, (arr, wl, k, J(0.2))), "fields": (f_fields, (arr, wl, k, J(0.2))), "flux": (f_flux, (arr, wl, k, J(0.2))),
        "source": (f_source, (arr, wl, k, J(0.2))), "pml": (f_pml, (arr, wl, k, J(0.2))), "beam": (f_beam, (arr, wl, k, J(0.2))),
        "interp": (lambda e, w, q, t: utils.interpolate_permittivity(e, -3.0 * e + 0.2j, J(0.3)), (arr, wl, k, J(0.2))),
    }
    for name in s["names"]:
        f, args = tests[name]
        ref, out = f(*args), jax.jit(f)(*args)
        m = max(1.0, float(np.nanmax(np.abs(ref))))
        yield {"ev": "jit", "name": name, "out": fp(out / m), "ref": fp(ref / m), "shape": obs.shape(out), "shape_ref": obs.shape(ref)}


def run(s):
    yield from {"history": history, "trees": trees, "keys": keys, "jit": jit}[s["mode"]](s)

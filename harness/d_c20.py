"""C20 driver: gradients of eigendecompositions and of the solver."""

import jax
import jax.numpy as jnp
import numpy as np

import lib
import obs
import stacks
from fmmax import basis, fields, fmm, scattering, utils

J = jnp.asarray
F = lambda x: obs.cfix(x, 10**6)


def well_conditioned(rng, n, degenerate):
    """(V, l): eigenvectors with moderate condition number, separated eigenvalues."""
    while True:
        V = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) + 1.5 * np.eye(n)
        l = rng.uniform(-2, 2, size=n) + 1j * rng.uniform(-2, 2, size=n)
        if degenerate:
            l[1] = l[0]
        gap = min(abs(l[i] - l[j]) for i in range(n) for j in range(i) if not (degenerate and {i, j} == {0, 1})) if n > 2 or not degenerate else 1.0
        if np.linalg.cond(V) < 6 and gap > 0.5:
            return V, l


def eig(s, rng):
    n = s["n"]
    scales = {"one": [1.0], "pair": [1.0, 3.0], "wide": [1e7, 1.0], "narrow": [1.0, 1e-6, 40.0], "tiny": [1e-8]}[s["scales"]]
    deg = s["degenerate"]
    eps = {"default": None, "broad": 0.01}[s["eps"]]
    mats = [well_conditioned(rng, n, deg) for _ in scales]
    A = np.stack([f * V @ np.diag(l) @ np.linalg.inv(V) for f, (V, l) in zip(scales, mats)])
    if s["scales"] in ("one", "tiny"):
        A = A[0]
    ex = s["outer"] and len(scales) > 1
    if ex:
        A = A[:, None]
    fn = (lambda a: utils.eig(a)) if eps is None else (lambda a: utils.eig(a, eps))
    l0, V0 = fn(J(A))
    l0, V0 = np.asarray(l0), np.asarray(V0)
    fl, fV = l0.reshape(-1, n), V0.reshape(-1, n, n)
    m = len(scales)
    c = rng.normal(size=(m, n)) + 1j * rng.normal(size=(m, n))
    k = rng.normal(size=(m, n)) + 1j * rng.normal(size=(m, n))
    if deg:  # Weights must not distinguish degenerate modes.
        for b in range(m):
            i, j = min(((i, j) for i in range(n) for j in range(i)), key=lambda p: abs(fl[b, p[0]] - fl[b, p[1]]))
            c[b, i], k[b, i] = c[b, j], k[b, j]
    C = rng.normal(size=(m, n, n)) + 1j * rng.normal(size=(m, n, n))
    d = rng.normal(size=(m, n, n)) + 1j * rng.normal(size=(m, n, n))

    def lin(a):
        l, _ = fn(a)
        return jnp.sum(jnp.real(J(c) * l.reshape(m, n)))

    def prj(a):
        _, V = fn(a)
        V = V.reshape(m, n, n)
        P = V @ utils.diag(J(k)) @ jnp.linalg.inv(V)
        return jnp.sum(jnp.real(J(C) * jnp.swapaxes(P, -1, -2)))

    g1 = np.asarray(jax.grad(lin)(J(A))).reshape(m, n, n)
    g2 = np.asarray(jax.grad(prj)(J(A))).reshape(m, n, n)
    for b, f in enumerate(scales):
        W = np.linalg.inv(fV[b])
        yield {"ev": "eig", "n": n, "A": F(A.reshape(m, n, n)[b] / f), "V": F(fV[b]), "W": F(W), "l": F(fl[b] / f), "d": F(d[b]), "c": F(c[b]), "k": F(k[b]),
               "C": F(C[b]), "eps": 0 if eps is None else int(eps * 1e6),
               "glin": obs.fix1(np.sum((g1[b] * d[b]).real), 1e6), "gprj": obs.fix1(f * np.sum((g2[b] * d[b]).real), 1e6)}


def quantity(s, rng):
    """A real function of a parameter dictionary, and the point at which it is differentiated."""
    coeffs, _ = stacks.EXPS["e5"]
    exp = lib.expansion(coeffs)
    uv, wl, k = stacks.geometry(rng, "e5")
    shape = (9, 8)
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    mask = ((i >= 2) & (i < 6) & (j >= 1) & (j < 5)) | ((i >= 4) & (i < 8) & (j == 5))
    eps = np.where(mask, 3.4 + 0.2j, 1.6) + 0j
    if s["structure"] == "uniform_patterned":
        eps = np.full(shape, 2.6 + 0.1j)
    elif s["structure"] == "symmetric":
        eps = np.where((np.minimum(i, shape[0] - i) < 3) & (np.minimum(j, shape[1] - j) < 2), 3.5, 1.5) + 0j
        uv, k = [[1.0, 0.0], [0.0, 1.0]], np.array([0.0, 0.0])
    wl = 1.37 if s["structure"] == "symmetric" else wl
    one = np.ones(shape) + 0j
    off = 0.15 * lib.pattern(3, shape, -1, 1, 0.0)
    params = {"eps": eps, "t": np.array([0.23, 0.31]), "wl": np.array(wl), "k": np.asarray(k, dtype=float), "uv": np.asarray(uv, dtype=float)}
    nb = s.get("batch", 0)
    if nb:
        params["wl"] = np.array([wl, wl * 1.07])[:nb]
    w = {x: rng.normal(size=(10, 10)) + 1j * rng.normal(size=(10, 10)) for x in ("11", "12", "21", "22")}
    kind = s["layer"]

    def solve(e, p, form):
        kw = dict(wavelength=p["wl"], in_plane_wavevector=p["k"], primitive_lattice_vectors=basis.LatticeVectors(u=p["uv"][0], v=p["uv"][1]), expansion=exp)
        if kind == "iso" or e.shape == (1, 1):
            return fmm.eigensolve_isotropic_media(permittivity=e, formulation=lib.form(form), **kw)
        c = lambda x: J(np.broadcast_to(x, shape))
        ten = dict(permittivity_xx=e, permittivity_xy=c(off), permittivity_yx=c(0.5 * off), permittivity_yy=1.1 * e, permittivity_zz=0.9 * e)
        if kind == "tensor":
            return fmm.eigensolve_anisotropic_media(formulation=lib.form(form), **ten, **kw)
        return fmm.eigensolve_general_anisotropic_media(
            formulation=lib.form(form), **ten, permeability_xx=c(one * 1.2), permeability_xy=c(0.1 * off), permeability_yx=c(0.1 * off),
            permeability_yy=0.2 * e + 1.0, permeability_zz=c(one * 1.1), **kw)

    def f(p):
        u = lambda v: jnp.full((1, 1), v, dtype=complex)
        layers = [solve(u(1.0), p, "fft"), solve(p["eps"], p, s["form"]), solve(u(2.4 + 0.3j), p, "fft"), solve(u(2.0), p, "fft")]
        ths = [jnp.zeros(()), p["t"][0], p["t"][1], jnp.zeros(())]
        if s["output"] == "s":
            S = scattering.stack_s_matrix(layers, ths)
            return sum(jnp.sum(jnp.real(w[n] * x)) for n, x in (("11", S.s11), ("12", S.s12), ("21", S.s21), ("22", S.s22))) / 20
        if s["output"] == "modes":
            q2 = layers[1].eigenvalues ** 2
            return jnp.real(jnp.sum((0.3 + 0.2j) * q2 + 0.01 * q2**2)) / 50
        inc = jnp.zeros((10, 1), dtype=complex).at[0, 0].set(1.0).at[5, 0].set(0.4j)
        if nb:
            inc = jnp.broadcast_to(inc, (nb,) + inc.shape)
        amps = fields.stack_amplitudes_interior(scattering.stack_s_matrices_interior(layers, ths), forward_amplitude_0_start=inc, backward_amplitude_N_end=jnp.zeros_like(inc))
        if s["output"] == "flux":
            a, b = amps[2]
            x = fields.colocate_amplitudes(a, b, z_offset=jnp.asarray(0.1), layer_solve_result=layers[2], layer_thickness=ths[2])
            sf, sb = fields.amplitude_poynting_flux(*x, layers[2])
            return jnp.sum(sf) + 0.5 * jnp.sum(sb)
        a, b = amps[1]
        a, b = fields.colocate_amplitudes(a, b, z_offset=jnp.asarray(0.07), layer_solve_result=layers[1], layer_thickness=ths[1])
        (ex, ey, ez), (hx, hy, hz) = fields.fields_from_wave_amplitudes(a, b, layers[1])
        return sum(jnp.sum(jnp.abs(x[..., :3, :]) ** 2) * (1 + 0.3 * i) for i, x in enumerate((ex, ey, ez, hx, hy, hz))) / 5

    return f, params


def solver(s, rng):
    f, p = quantity(s, rng)
    jf = jax.jit(f)
    g = jax.jit(jax.grad(f))({k: J(v) for k, v in p.items()})
    g = {k: np.asarray(v) for k, v in g.items()}
    yield {"ev": "finite", "g": sum((obs.cfix(np.asarray(v) / max(1.0, np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 1.0), 10**6) for v in g.values()), [])}
    if s.get("batch"):
        loop = []
        for b in range(s["batch"]):
            q = dict(p)
            q["wl"] = p["wl"][b:b + 1]
            s1 = dict(s, batch=1)
            f1, _ = quantity(s1, np.random.default_rng([s["seed"], s["sid"], 20]))
            g1 = jax.grad(f1)({k: J(v) for k, v in q.items()})
            loop.append({k: np.asarray(v) for k, v in g1.items()})
        tot = {k: (np.concatenate([l[k] for l in loop]) if k == "wl" else sum(l[k] for l in loop)) for k in g}
        for k in g:
            yield {"ev": "batch", "g": obs.cfix(g[k], 10**6), "loop": obs.cfix(tot[k], 10**6)}
    base = {k: J(v) for k, v in p.items()}
    for name in s["params"]:
        if name == "eps":
            pat = np.where(np.abs(p["eps"] - p["eps"][0, 0]) > 1e-9, 1.0, 0.0) if s["form"] != "fft" else rng.normal(size=p["eps"].shape)
            if s["structure"] == "uniform_patterned" and s["form"] != "fft":
                pat = np.ones(p["eps"].shape)  # stays uniform: no contrast, so no tangent field is involved
            dirs = [pat * (0.7 + 0.4j), pat * -1.1j]
        else:
            dirs = [rng.normal(size=p[name].shape)]
        for d in dirs:
            d = d / max(1e-9, np.abs(d).max())
            val = lambda h: float(jf({**base, name: J(p[name] + h * d)}))
            for h in (1e-3, 1e-4, 1e-5):  # smaller steps close to the threshold of an order
                d1, d2 = (val(h) - val(-h)) / (2 * h), (val(2 * h) - val(-2 * h)) / (4 * h)
                if abs(d1 - d2) < 0.003 * max(1.0, abs(d1)):
                    break
            x = np.sum((g[name] * d).real) if np.iscomplexobj(p[name]) else np.sum(g[name] * d)
            big = max(1.0, abs(d1) / 100)
            yield {"ev": "fd", "param": name, "g": obs.fix1(x / big, 1e6), "d1": obs.fix1(d1 / big, 1e6), "d2": obs.fix1(d2 / big, 1e6)}


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 20])
    yield from eig(s, rng) if s["mode"] == "eig" else solver(s, rng)

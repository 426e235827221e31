"""C06 driver: batched calls and the single calls they stand for.

Each event records one operation: the batch shapes of its inputs, the batched output per batch
index, and the outputs of single calls labelled by the input indices they used.  A column axis of
amplitudes is recorded as an additional leading batch axis of that input."""

import itertools

import jax.numpy as jnp
import numpy as np

import lib
import mats
import obs
import stacks
from fmmax import basis, fft, fields, fmm, pml, scattering, sources, utils, vector

J = jnp.asarray
EXP = {"e5": stacks.EXPS["e5"], "e3": stacks.EXPS["e3"]}


def reduced(base, code):
    """An input batch shape that broadcasts into `base`."""
    base = tuple(base)
    return {"none": (), "full": base, "tail": base[1:], "lead1": (1,) * min(1, len(base)) + base[1:],
            "last1": base[:-1] + (1,) * min(1, len(base)), "ones": (1,) * len(base)}[code]


def bcast(*shapes):
    return np.broadcast_shapes(*[tuple(s) for s in shapes])


def proj(idx, shape):
    idx = idx[len(idx) - len(shape):]
    return tuple(0 if d == 1 else i for i, d in zip(idx, shape))


class Op:
    """ins: name -> (array, batch shape, column axis or None); fn(**arrays) -> list of arrays with
    leading batch axes (and trailing column axis when `col`)."""

    def __init__(self, name, ins, fn, ranks, col=None, outcol=True):
        self.name, self.ins, self.fn, self.ranks, self.col, self.outcol = name, ins, fn, ranks, col, outcol

    def events(self):
        names = list(self.ins)
        shapes = {n: tuple(self.ins[n][1]) for n in names}
        full = bcast(*shapes.values())
        cols = {n: self.ins[n][0].shape[-1] for n in names if self.col and n in self.col}
        m = max(cols.values()) if cols else None
        out = self.fn(**{n: J(self.ins[n][0]) for n in names})
        singles = {}
        for idx in itertools.product(*[range(d) for d in full]):
            for c in (range(m) if m else [None]):
                at = []
                for n in names:
                    p = list(proj(idx, shapes[n]))
                    if m:
                        p = [c if n in cols else 0] + [0] * (len(full) - len(p)) + p
                    at.append(tuple(p))
                at = tuple(at)
                if at in singles:
                    continue
                kw = {}
                for n in names:
                    a = self.ins[n][0][proj(idx, shapes[n])]
                    if m and n in cols:
                        a = a[..., c:c + 1]
                    kw[n] = J(a)
                singles[at] = self.fn(**kw)
        for k, r in enumerate(self.ranks):
            x = np.asarray(out[k])
            ob = x.shape[:x.ndim - r - (1 if m and self.outcol else 0)]
            vals = {}
            nx = int(np.prod(ob)) if ob else 1
            x = x.reshape((nx,) + x.shape[len(ob):])
            if m:
                cl = x.shape[-1]
                x = np.moveaxis(x, -1, 0).reshape((cl * nx,) + x.shape[1:-1])
                ob2 = (cl,) + (1,) * (len(full) - len(ob)) + tuple(ob)
                sh = [([m] if n in cols else [1]) + [1] * (len(full) - len(shapes[n])) + list(shapes[n]) for n in names]
            else:
                ob2, sh = ob, [list(shapes[n]) for n in names]
            f = lambda v: proj_fp(v)
            data = [f(v) for v in x]
            sing = [(at, f(np.asarray(v[k])[..., 0] if m else np.asarray(v[k]))) for at, v in singles.items()]
            allv = np.concatenate([np.ravel(d) for d in data] + [np.ravel(v) for _, v in sing])
            big = np.abs(allv[np.isfinite(allv)]).max() if np.isfinite(allv).any() else 1.0
            sc = 1e7 / max(big, 1e-3)
            yield {"ev": "op", "op": self.name, "part": k, "ins": sh, "out": [int(d) for d in ob2],
                   "data": [obs.cfix(d, sc) for d in data],
                   "dshape": obs.shape(x[0]), "sshape": obs.shape(np.asarray(next(iter(singles.values()))[k])[..., 0] if m else next(iter(singles.values()))[k]),
                   "singles": [{"at": [list(p) for p in at], "v": obs.cfix(v, sc)} for at, v in sing]}


def proj_fp(v):
    v = np.asarray(v).astype(complex).ravel()
    rng = np.random.default_rng([6, v.size])
    w = rng.uniform(-1, 1, size=(4, v.size)) + 1j * rng.uniform(-1, 1, size=(4, v.size))
    bad = ~np.isfinite(v)
    if bad.any():
        v = np.where(bad, 0, v)
        v = v + bad * 7.0  # not-a-number entries must be the same ones
    return w @ v / np.sqrt(max(1, v.size))


def modes(sol):
    """Gauge independent content of a solve result."""
    q, phi = sol.eigenvalues, sol.eigenvectors
    A = phi @ (q[..., :, None]**2 * jnp.linalg.inv(phi))
    return [A, sol.omega_script_k_matrix, sol.z_permittivity_matrix, sol.inverse_z_permittivity_matrix,
            sol.z_permeability_matrix, sol.inverse_z_permeability_matrix, sol.transverse_permeability_matrix]


def tang(sol, a, b):
    e, h = fields.fields_from_wave_amplitudes(forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)
    return jnp.concatenate(list(e) + list(h), axis=-2)


def make(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 6])
    coeffs, pshape = EXP[s["exp"]]
    exp = lib.expansion(coeffs)
    n = len(coeffs)
    base = tuple(s["base"])
    B = {x: reduced(base, s[x]) for x in ("wl", "k", "lat", "eps", "th", "amp")}
    wl = np.round(rng.uniform(0.6, 1.6, size=B["wl"]), 3)
    k = np.round(rng.uniform(-0.8, 0.8, size=B["k"] + (2,)), 3)
    uv0 = np.array(stacks.LATTICES[int(rng.integers(0, 4))])
    uv = uv0 * np.round(rng.uniform(0.9, 1.1, size=B["lat"] + (2, 1)), 3) + np.round(rng.uniform(-0.05, 0.05, size=B["lat"] + (2, 2)), 3)
    seed = s["seed"] * 1009 + 13 * s["sid"]
    pat = lambda sd, loss: lib.pattern(sd, pshape, 1.4, 4.5, loss, B["eps"])
    uni = lambda sd: np.round(np.random.default_rng([3, sd]).uniform(1.2, 3.0, size=B["eps"] + (1, 1)), 3) + 0j
    m = s["cols"]
    camp = lambda i: stacks.amplitudes(np.random.default_rng([seed, i]), n, m, B["amp"])
    th = lambda i: np.round(np.random.default_rng([seed, 7, i]).uniform(0.1, 0.5, size=B["th"]), 3)
    LV = lambda uv: basis.LatticeVectors(u=uv[..., 0, :], v=uv[..., 1, :])
    geo = {"wl": (wl, B["wl"]), "k": (k, B["k"]), "uv": (uv, B["lat"])}
    iso = lambda wl, k, uv, e, f="fft": fmm.eigensolve_isotropic_media(
        wavelength=wl, in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), permittivity=e, expansion=exp, formulation=lib.form(f))
    op = s["op"]
    F = s["form"]
    if op == "eig_iso":
        e = uni(seed) if s["uni"] else pat(seed, 0.3)
        return Op(op, {**geo, "e": (e, B["eps"])}, lambda wl, k, uv, e: modes(iso(wl, k, uv, e, F)), [2] * 7)
    if op in ("eig_aniso", "eig_gen"):
        t = lib.tensor(seed, pshape, B["eps"], lo=2.0, hi=4.0, off=0.2, loss=0.3)
        mu = lib.tensor(seed + 5, pshape, B["eps"], lo=1.0, hi=1.8, off=0.1, loss=0.2)
        if s["uni"]:
            t, mu = [x[..., :1, :1] for x in t], [x[..., :1, :1] for x in mu]
        T = np.stack(t, axis=-3)
        M = np.stack(mu, axis=-3)
        kw = lambda x, p: {f"{p}_{c}": x[..., i, :, :] for i, c in enumerate(("xx", "xy", "yx", "yy", "zz"))}
        if op == "eig_aniso":
            return Op(op, {**geo, "T": (T, B["eps"])}, lambda wl, k, uv, T: modes(fmm.eigensolve_anisotropic_media(
                wavelength=wl, in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), expansion=exp, formulation=lib.form(F),
                **kw(T, "permittivity"))), [2] * 7)
        return Op(op, {**geo, "T": (T, B["eps"]), "M": (M, B["eps"])}, lambda wl, k, uv, T, M: modes(fmm.eigensolve_general_anisotropic_media(
            wavelength=wl, in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), expansion=exp, formulation=lib.form(F), vector_field_source=None,
            **kw(T, "permittivity"), **kw(M, "permeability"))), [2] * 7)

    def stack(wl, k, uv, e1, e2, t1, t2):
        """Ambients without / with the permittivity batch, patterned layer between."""
        one = jnp.full((1, 1), 1.44 + 0j)
        ls = [iso(wl, k, uv, one), iso(wl, k, uv, e1, F), iso(wl, k, uv, e2)]
        return ls, [J(0.2), t1[..., None], t2[..., None]]
    sin = {**geo, "e1": (pat(seed, 0.25), B["eps"]), "e2": (uni(seed + 1), B["eps"]), "t1": (th(1), B["th"]), "t2": (th(2), B["th"])}
    blocks = lambda S: [S.s11, S.s12, S.s21, S.s22]
    if op == "smat":
        return Op(op, sin, lambda **kw: blocks(scattering.stack_s_matrix(*stack(**kw))), [2] * 4)
    if op == "smat_ops":
        def f(**kw):
            ls, ts = stack(**kw)
            S = scattering.stack_s_matrix(ls[:1] + ls[2:], ts[:1] + ts[2:])
            A = scattering.append_layer(S, next_layer_solve_result=ls[0], next_layer_thickness=ts[1])
            P = scattering.prepend_layer(S, next_layer_solve_result=ls[2], next_layer_thickness=ts[1])
            R = scattering.redheffer_star_product(S, A)
            return [A.s11, A.s21, P.s12, P.s22, R.s11, R.s22, R.s12]
        return Op(op, sin, f, [2] * 7)
    if op == "interior":
        def f(a, b, **kw):
            ls, ts = stack(**kw)
            Si = scattering.stack_s_matrices_interior(ls, ts)
            am = fields.stack_amplitudes_interior(s_matrices_interior=Si, forward_amplitude_0_start=a, backward_amplitude_N_end=b)
            return [am[0][0], am[0][1], tang(ls[1], am[1][0], jnp.zeros_like(am[1][0])), tang(ls[2], *am[2]), am[2][0]]
        return Op(op, {**sin, "a": (camp(1), B["amp"]), "b": (camp(2), B["amp"])}, f, [1] * 5, col=("a", "b"))
    lay = {**geo, "e": (uni(seed), B["eps"])}
    ab = {"a": (camp(1), B["amp"]), "b": (camp(2), B["amp"])}
    layer = lambda wl, k, uv, e: iso(wl, k, uv, e)
    if op == "propagate":
        def f(a, b, t, **kw):
            sol = layer(**kw)
            t = t[..., None, None]
            x = fields.propagate_amplitude(amplitude=a, distance=t, layer_solve_result=sol)
            y = fields.colocate_amplitudes(forward_amplitude_start=a, backward_amplitude_end=b, z_offset=t / 3, layer_solve_result=sol, layer_thickness=t)
            return [x, y[0], y[1]]
        return Op(op, {**lay, **ab, "t": (th(1), B["th"])}, f, [1] * 3, col=("a", "b"))
    if op == "fields":
        return Op(op, {**lay, **ab}, lambda a, b, **kw: [tang(layer(**kw), a, b)], [1], col=("a", "b"))
    if op == "conversion":
        return Op(op, lay, lambda **kw: [fields.field_conversion_matrix(layer(**kw)), fields.eigenmode_poynting_flux(layer(**kw))], [2, 1])
    if op == "flux":
        def f(a, b, **kw):
            sol = layer(**kw)
            kw2 = dict(forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)
            return [*fields.amplitude_poynting_flux(**kw2), *fields.directional_poynting_flux(**kw2)]
        return Op(op, {**lay, **ab}, f, [1] * 4, col=("a", "b"))
    if op in ("grid", "coords", "3d"):
        def f(a, b, **kw):
            sol = layer(**kw)
            if op == "3d":
                e, h, _ = fields.stack_fields_3d(amplitudes_interior=[(a, b), (b, a)], layer_solve_results=[sol, sol],
                                                 layer_thicknesses=[J(0.3), J(0.2)], layer_znum=[2, 1], grid_shape=(5, 6), num_unit_cells=(1, 2))
            else:
                E, H = fields.fields_from_wave_amplitudes(forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)
                if op == "grid":
                    e, h, _ = fields.fields_on_grid(electric_field=E, magnetic_field=H, layer_solve_result=sol, shape=(5, 6), num_unit_cells=(2, 1))
                else:
                    e, h, _ = fields.fields_on_coordinates(electric_field=E, magnetic_field=H, layer_solve_result=sol,
                                                           x=J([0.1, 0.7, -0.4]), y=J([0.3, 0.2, 1.1]))
            return list(e) + list(h)
        return Op(op, {**lay, **ab}, f, [{"grid": 2, "coords": 1, "3d": 3}[op]] * 6, col=("a", "b"))
    if op == "source":
        jn = lambda i: stacks.amplitudes(np.random.default_rng([seed, 40 + i]), n, m, B["amp"])[..., :n, :]
        def f(jx, jy, jz, **kw):
            ls, ts = stack(**kw)
            S0 = scattering.stack_s_matrix(ls[:2], ts[:2])
            S1 = scattering.stack_s_matrix(ls[2:] + ls[:1], [ts[2], ts[0]])
            six = sources.amplitudes_for_source(jx=jx, jy=jy, jz=jz, s_matrix_before_source=S0, s_matrix_after_source=S1)
            return [six[0], six[3], six[4], six[5], tang(ls[1], six[1], six[2])]
        return Op(op, {**sin, "jx": (jn(1), B["amp"]), "jy": (jn(2), B["amp"]), "jz": (jn(3), B["amp"])}, f, [1] * 5, col=("jx", "jy", "jz"))
    if op == "coefs":
        loc = J(np.round(rng.uniform(-0.5, 0.5, size=(2, 2)), 3))
        return Op(op, {"k": geo["k"], "uv": geo["uv"]}, lambda k, uv: [
            sources.dirac_delta_source(location=loc, in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), expansion=exp),
            sources.gaussian_source(fwhm=J(0.3), location=loc, in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), expansion=exp)], [2, 2])
    if op == "recover":
        fl = lambda i: stacks.amplitudes(np.random.default_rng([seed, 60 + i]), 15, m, B["amp"]).reshape(B["amp"] + (5, 6, m))
        f = lambda ex, ey, hx, hy, **kw: list(sources.amplitudes_for_fields(ex=ex, ey=ey, hx=hx, hy=hy, layer_solve_result=layer(**kw)))
        # The batch of the fields is that of the layer or broadcasts to it.
        return Op(op, {**lay, **{c: (fl(i), B["amp"]) for i, c in enumerate(("ex", "ey", "hx", "hy"))}}, f, [1, 1], col=("ex", "ey", "hx", "hy"))
    if op == "tangent":
        def f(uv, e):
            out = []
            for fn in (vector.compute_field_pol, vector.compute_field_normal, vector.compute_field_jones, vector.compute_field_jones_direct):
                tx, ty = fn(e, expansion=exp, primitive_lattice_vectors=LV(uv), fourier_loss_weight=0.02, smoothness_loss_weight=0.03)
                out += [jnp.stack(jnp.broadcast_arrays(tx, ty), axis=-1)]
            # Only the direction is determined.
            return [x[..., :, None] * x[..., None, :] for x in out]
        e = pat(seed, 0.0).real
        return Op(op, {"uv": geo["uv"], "e": (e, B["eps"])}, f, [4] * 4)
    if op == "basis":
        pa = np.round(rng.uniform(-0.8, 0.8, size=B["th"]), 3)
        az = np.round(rng.uniform(-3, 3, size=B["eps"]), 3)
        ep = np.round(rng.uniform(1, 4, size=B["amp"]), 3)
        def f(wl, k, uv, pa, az, ep):
            r = basis.reciprocal(LV(uv))
            x, y = basis.unit_cell_coordinates(primitive_lattice_vectors=LV(uv), shape=(3, 4), num_unit_cells=(2, 1))
            return [basis.transverse_wavevectors(in_plane_wavevector=k, primitive_lattice_vectors=LV(uv), expansion=exp),
                    basis.plane_wave_in_plane_wavevector(wavelength=wl, polar_angle=pa, azimuthal_angle=az, permittivity=ep), r.u, r.v, x, y]
        return Op(op, {**geo, "pa": (pa, B["th"]), "az": (az, B["eps"]), "ep": (ep, B["amp"])}, f, [2, 1, 1, 1, 2, 2])
    if op == "fourier":
        e = pat(seed, 0.4)
        def f(e):
            c = fft.fft(e, expansion=exp)
            return [fft.fourier_convolution_matrix(e, expansion=exp), c, fft.ifft(c, expansion=exp, shape=(7, 6))]
        return Op(op, {"e": (e, B["eps"])}, f, [2, 1, 2])
    if op == "pml":
        e = pat(seed, 0.4)
        P = pml.PMLParams(num_x=2, num_y=1 if pshape[1] > 3 else 0)
        def f(e):
            a, b = pml.apply_uniaxial_pml(permittivity=e, pml_params=P)
            return list(a) + list(b)
        return Op(op, {"e": (e, B["eps"])}, f, [2] * 10)
    if op == "eig":
        A = np.random.default_rng(seed).uniform(-1, 1, size=B["eps"] + (5, 5)) + 1j * np.random.default_rng(seed + 1).uniform(-1, 1, size=B["eps"] + (5, 5))
        A = A * np.random.default_rng(seed + 2).uniform(0.1, 5, size=B["eps"] + (1, 1))
        def f(A):
            q, x = utils.eig(A)
            return [x @ (q[..., :, None]**3 * jnp.linalg.inv(x)), A @ x - x * q[..., None, :]]
        return Op(op, {"A": (A, B["eps"])}, f, [2, 2])
    raise ValueError(op)


def run(s):
    op = make(s)
    yield from op.events()

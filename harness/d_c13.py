"""C13 driver: Poynting flux functions against fields."""

import numpy as np
import jax.numpy as jnp

import lib
import mats
import obs
import onelayer
import stacks
from fmmax import fields

SC = 10**7


def flds(a, b, sol):
    return [[np.asarray(c) for c in g] for g in fields.fields_from_wave_amplitudes(
        forward_amplitude=jnp.asarray(a), backward_amplitude=jnp.asarray(b), layer_solve_result=sol)]


def run(s):
    if "stack" in s:
        for e, sol, a, b, vec, oi in onelayer.channel(s):
            kw = dict(forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)
            net = sum(float(np.asarray(x).sum()) for x in fields.amplitude_poynting_flux(**kw))
            netd = sum(float(np.asarray(x).sum()) for x in fields.directional_poynting_flux(**kw))
            yield {"ev": "exact", **e, "net": obs.fix1(net, 10**6), "netdir": obs.fix1(netd, 10**6)}
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 13])
    coeffs, shape = stacks.EXPS[s["exp"]]
    exp = lib.expansion(coeffs)
    n, m = len(coeffs), 1 + s["var"]
    uv, wl, k = stacks.geometry(rng, s["exp"])
    api, eps, mu = mats.material(s["kind"], s["seed"] * 991 + s["sid"], shape)
    sol = mats.solve(api, eps, mu, wl, k, uv, exp, s["form"])
    eig = np.asarray(fields.eigenmode_poynting_flux(sol))
    a, b = stacks.amplitudes(rng, n, m), stacks.amplitudes(rng, n, m)
    if s["sid"] % 6 == 1:
        b = 0 * b
    if s["sid"] % 6 == 2:
        a = 0 * a
    # Modes without power flow have no direction: excite them only in every other scenario.
    dead = np.abs(eig) < 1e-7 * np.abs(eig).max()
    if s["sid"] % 2:
        a, b = a * ~dead[:, None], b * ~dead[:, None]
    E, H = flds(a, b, sol)
    size = float(max((np.abs(E[0]) * np.abs(H[1]) + np.abs(E[1]) * np.abs(H[0])).sum(axis=-2).max(), 1e-9))
    if size > 1e6:
        return
    kw = dict(layer_solve_result=sol)
    A = lambda x, y: [np.asarray(z) for z in fields.amplitude_poynting_flux(forward_amplitude=jnp.asarray(x), backward_amplitude=jnp.asarray(y), **kw)]
    D = lambda x, y: [np.asarray(z) for z in fields.directional_poynting_flux(forward_amplitude=jnp.asarray(x), backward_amplitude=jnp.asarray(y), **kw)]
    f = lambda x: obs.fix(x, SC / size)
    af, ab = A(a, b)
    df, db = D(a, b)
    order = np.concatenate([np.real(-E[1] * H[0].conj()), np.real(E[0] * H[1].conj())], axis=-2)
    # Parts of the fields due to the forward and backward modes.
    Ea, Ha = flds(a, 0 * b, sol)
    half = lambda e1, h1, e2, h2: 0.5 * np.concatenate([
        np.real(-e1[1] * h2[0].conj() - e2[1].conj() * h1[0]), np.real(e1[0] * h2[1].conj() + e2[0].conj() * h1[1])], axis=-2)
    refaf = half(Ea, Ha, E, H)
    # Directional: forward-flux modes of `a` with backward-flux modes of `b`, against the total field.
    up = (eig > 0)[:, None]
    Eu, Hu = flds(a * up, b * ~up, sol)
    Ed, Hd = flds(a * ~up, b * up, sol)
    refdf, refdb = half(Eu, Hu, E, H), half(Ed, Hd, E, H)
    nu = (2 * (1 + int(np.abs(coeffs).max())) + 3, 2 * (1 + int(np.abs(coeffs).max())) + 4)
    cells = (1, 1) if s["var"] else (2, 1)
    Eg, Hg, _ = fields.fields_on_grid(tuple(map(jnp.asarray, E)), tuple(map(jnp.asarray, H)), layer_solve_result=sol, shape=nu,
                                      num_unit_cells=cells)
    Eg, Hg = [np.asarray(x) for x in Eg], [np.asarray(x) for x in Hg]
    grid = np.real(Eg[0] * Hg[1].conj() - Eg[1] * Hg[0].conj()).mean(axis=(-3, -2))
    c = complex(*rng.uniform(-1, 1, size=2)) + 0.5
    tot = lambda x: x.sum(axis=-2)
    scaled = sum(tot(x) for x in A(c * a, c * b)) / abs(c)**2
    yield {"ev": "flux", "af": f(af), "ab": f(ab), "df": f(df), "db": f(db), "order": f(order), "taf": f(tot(af)), "tab": f(tot(ab)),
           "tdf": f(tot(df)), "tdb": f(tot(db)), "total": f(tot(order)), "grid": f(grid), "refaf": f(refaf), "refdf": f(refdf),
           "refdb": f(refdb), "scaled": f(scaled), "shapes_ok": [obs.shape(x) for x in (af, ab, df, db)], "want": [2 * n, m]}
    # Each mode alone.
    eye = np.eye(2 * n, dtype=complex)
    hf, _ = A(eye, 0 * eye)
    _, hb = A(0 * eye, eye)
    d1, d2 = D(eye, 0 * eye)
    nrm = max(float(np.abs(eig).max()), 1e-9)
    g = lambda x: obs.fix(x, SC / nrm)
    yield {"ev": "modes", "shape": obs.shape(eig), "want": [2 * n], "eig": g(eig), "hot": g(hf.sum(axis=-2)), "hotb": g(hb.sum(axis=-2)),
           "dirf": g(d1.sum(axis=-2)), "dirb": g(d2.sum(axis=-2))}

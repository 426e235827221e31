"""C05 driver: fields of wave amplitudes."""

import numpy as np
import jax.numpy as jnp

import lib
import mats
import obs
import onelayer
import planar
import stacks
from fmmax import fields


def run(s):
    if "stack" in s:
        for e, sol, a, b, vec, oi in onelayer.channel(s):
            yield {"ev": "exact", **e, **onelayer.observed(sol, a, b, vec, oi)}
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 5])
    coeffs, shape = stacks.EXPS[s["exp"]]
    exp = lib.expansion(coeffs)
    n = len(coeffs)
    uv, wl, k = stacks.geometry(rng, s["exp"])
    api, eps, mu = mats.material(s["kind"], s["seed"] * 997 + s["sid"], shape)
    if rng.uniform() < 0.25 and s["kind"] in ("aniso", "magnetic"):
        api = "gen"
    form = s["form"]
    sol = mats.solve(api, eps, mu, wl, k, uv, exp, form)
    if eps[0].shape != (1, 1) and form != "fft" and np.min(sum(np.abs(np.asarray(t))**2 for t in sol.tangent_vector_field)) < 1e-6:
        return
    q = np.asarray(sol.eigenvalues)
    real, decaying = obs.directions(q)
    yield {"ev": "modes", "imq": obs.fix(q.imag[decaying], 10**6), "req": obs.fix(q.real[real], 10**6), "count": len(q), "want": 2 * n}
    a, b = stacks.amplitudes(rng, n, 1), stacks.amplitudes(rng, n, 1)
    if s["sid"] % 5 == 1:
        b = 0 * b
    if s["sid"] % 5 == 2:
        a = 0 * a
    F = lambda x, y: [[np.asarray(c)[:, 0] for c in g] for g in fields.fields_from_wave_amplitudes(
        forward_amplitude=jnp.asarray(x), backward_amplitude=jnp.asarray(y), layer_solve_result=sol)]
    E, H = F(a, b)
    dE, dH = F(1j * q[:, None] * a, -1j * q[:, None] * b)
    top = max(float(np.abs(x).max()) for x in E + H)
    dtop = max(float(np.abs(x).max()) for x in dE[:2] + dH[:2])
    if not np.isfinite(top + dtop):
        yield {"ev": "modes", "imq": [obs.NAN], "req": [], "count": 1, "want": 1}
        return
    scale = max(top / 4.0, dtop / 60.0)
    E, H, dE, dH = [[x / scale for x in g] for g in (E, H, dE, dH)]
    w = 2 * np.pi / wl
    G = 2 * np.pi * np.linalg.inv(np.array(uv)).T
    kv = np.asarray(k)[None, :] + np.asarray(coeffs) @ G
    kx, ky = kv[:, 0], kv[:, 1]
    Em, Mm = mats.displacement_matrices(api, eps, mu, exp, sol, form)
    Cz, Gz = ky * H[0] - kx * H[1], kx * E[1] - ky * E[0]
    ez_m, hz_m = mats.conv(eps[4], exp), mats.conv(mu[4], exp)
    ezi, hzi = mats.conv(1 / eps[4], exp), mats.conv(1 / mu[4], exp)
    ezt, hzt = np.linalg.solve(ez_m, Cz) / w, np.linalg.solve(hz_m, Gz) / w
    V = lambda x: [planar.cx(z) for z in x]
    i6 = lambda x: int(round(float(x) * 1e6))
    exy, hxy = np.concatenate(E[:2]), np.concatenate(H[:2])
    if max(np.abs(Em).max(), np.abs(Mm).max(), np.abs(ez_m).max(), np.abs(ezi).max(), np.abs(ezt).max() / 8) > 12:
        return  # outside the fixed-point range
    for o in sorted(set(int(x) for x in rng.integers(0, n, size=2))):
        yield {"ev": "curl", "o": o + 1, "w": i6(w), "kx": i6(kx[o]), "ky": i6(ky[o]), "exy": V(exy), "hxy": V(hxy),
               "ezt": V(ezt), "hzt": V(hzt), "erx": V(Em[o]), "ery": V(Em[n + o]), "mrx": V(Mm[o]), "mry": V(Mm[n + o]),
               "ezr": V(ez_m[o]), "mzr": V(hz_m[o]), "ezi": V(ezi[o]), "mzi": V(hzi[o]), "c": V(Cz), "g": V(Gz),
               "ez": planar.cx(E[2][o]), "hz": planar.cx(H[2][o]),
               "dex": planar.cx(dE[0][o]), "dey": planar.cx(dE[1][o]), "dhx": planar.cx(dH[0][o]), "dhy": planar.cx(dH[1][o])}

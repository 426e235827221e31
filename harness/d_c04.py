"""C04 driver: interior amplitudes."""

import jax.numpy as jnp
import numpy as np

import d_c02
import lib
import obs
import planar
import stacks
from fmmax import fields, scattering

SC = 10**7


def fp(x, key):
    return obs.fingerprint(x, 3, key, SC)


def tangential(a, b, sol):
    (ex, ey, _), (hx, hy, _) = fields.fields_from_wave_amplitudes(
        forward_amplitude=jnp.asarray(a), backward_amplitude=jnp.asarray(b), layer_solve_result=sol)
    return np.concatenate([np.asarray(v) for v in (ex, ey, hx, hy)], axis=-2)


def run(s):
    if "stack" in s:
        yield from run_uniform(s)
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 4])
    st = stacks.structure(s["cls"], s["seed"] * 1000 + s["sid"], s["exp"], s["nl"], tuple(s["batch"]),
                          ambients=s["sid"] % 3 != 0)
    layers, ths = st["layers"], [jnp.asarray(t) for t in st["ths"]]
    n, m = st["n"], s["cols"]
    ab = tuple(s["batch"])
    a0 = stacks.amplitudes(rng, n, m, ab) * (s["side"] in (1, 3))
    bN = stacks.amplitudes(rng, n, m, ab) * (s["side"] in (2, 3))
    interior = scattering.stack_s_matrices_interior(layer_solve_results=layers, layer_thicknesses=ths)
    amps = fields.stack_amplitudes_interior(
        s_matrices_interior=interior, forward_amplitude_0_start=jnp.asarray(a0), backward_amplitude_N_end=jnp.asarray(bN))
    sm = scattering.stack_s_matrix(layer_solve_results=layers, layer_thicknesses=ths)
    bc = lambda x: np.broadcast_to(np.asarray(x), tuple(ab) + np.shape(x)[-2:]) if np.ndim(x) - 2 <= len(ab) else np.asarray(x)
    out_n = np.asarray(sm.s11) @ a0 + np.asarray(sm.s12) @ bN
    out_0 = np.asarray(sm.s21) @ a0 + np.asarray(sm.s22) @ bN
    ra, rb = lib.dense_amplitudes(layers, ths, a0, bN)
    if max(float(np.abs(x).max()) for x in ra + rb) > 30.0:
        return  # resonant or ill-conditioned stack: fixed point would be meaningless
    L = len(layers)
    for i, ((a, b), sol, t) in enumerate(zip(amps, layers, ths)):
        if i % 2:  # the single-layer entry point returns the same thing
            a, b = fields.amplitudes_interior(
                s_matrix_before=interior[i][0], s_matrix_after=interior[i][1],
                forward_amplitude_0_start=jnp.asarray(a0), backward_amplitude_N_end=jnp.asarray(bN))
        a, b = bc(a), bc(b)
        fs, bs = fields.colocate_amplitudes(
            jnp.asarray(a), jnp.asarray(b), z_offset=jnp.asarray(0.0), layer_solve_result=sol, layer_thickness=t)
        fe, be = fields.colocate_amplitudes(
            jnp.asarray(a), jnp.asarray(b), z_offset=t, layer_solve_result=sol, layer_thickness=t)
        yield {"ev": "layer", "index": i + 1, "total": L, "shape": obs.shape(a), "want": list(np.shape(ra[i])),
               "a": fp(a, 1), "b": fp(b, 2), "refa": fp(ra[i], 1), "refb": fp(rb[i], 2),
               "inc0": fp(bc(a0), 1), "incN": fp(bc(bN), 2), "out0": fp(bc(out_0), 2), "outN": fp(bc(out_n), 1),
               "startf": fp(bc(tangential(fs, bs, sol)), 3), "endf": fp(bc(tangential(fe, be, sol)), 3)}
    # Propagation.
    i = int(rng.integers(0, L))
    sol, t = layers[i], ths[i]
    amp = stacks.amplitudes(rng, n, m, ab)
    d1, d2 = rng.uniform(0, 0.4, size=2)
    P = lambda x, d: fields.propagate_amplitude(amplitude=jnp.asarray(x), distance=jnp.asarray(d), layer_solve_result=sol)
    f, b = stacks.amplitudes(rng, n, m, ab), stacks.amplitudes(rng, n, m, ab)
    z = float(t) * rng.uniform()
    co = lambda zz: fields.colocate_amplitudes(
        forward_amplitude_start=jnp.asarray(f), backward_amplitude_end=jnp.asarray(b), z_offset=jnp.asarray(zz),
        layer_solve_result=sol, layer_thickness=t)
    q = np.asarray(sol.eigenvalues)[..., None]
    cf, cb = co(z)
    # Planes outside the layer: the amplitudes the layer's modes would have there.
    out = 0.02 + 0.03 * rng.uniform()
    (ff, fb), (gf, gb) = co(float(t) + out), co(-out)
    yield {"ev": "prop", "two": fp(P(P(amp, d1), d2), 1), "one": fp(amp * np.exp(1j * q * (d1 + d2)), 1),
           "zero": fp(P(amp, 0.0), 1), "amp": fp(amp, 1), "back": fp(P(P(amp, d1), -d1), 1),
           "cf": fp(cf, 1), "pf": fp(f * np.exp(1j * q * z), 1), "cb": fp(cb, 2), "pb": fp(b * np.exp(1j * q * (float(t) - z)), 2),
           "cf0": fp(co(0.0)[0], 1), "f": fp(f, 1), "cbd": fp(co(float(t))[1], 2), "b": fp(b, 2),
           "after": fp(ff, 1) + fp(fb, 2), "pafter": fp(f * np.exp(1j * q * (float(t) + out)), 1) + fp(b * np.exp(-1j * q * out), 2),
           "before": fp(gf, 1) + fp(gb, 2), "pbefore": fp(f * np.exp(-1j * q * out), 1) + fp(b * np.exp(1j * q * (float(t) + out)), 2)}


def run_uniform(s):
    ax, w, kmag, coeffs, uv, k0, g1, g2 = d_c02.setup(s)
    if d_c02.singular(s, w, coeffs, k0, g1, g2):
        return
    lj = [planar.layer_json_for(mid, planar.THICK[did], "x") for mid, did in s["stack"]]
    if not d_c02.judgeable(lj, w, kmag):
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 44])
    layers, ths = [], []
    for mid, did in s["stack"]:
        es = planar.entries(mid)
        layers.append(planar.solve(mid, 2 * np.pi / w, k0, uv, coeffs, ax, es[int(rng.integers(0, len(es)))]))
        ths.append(jnp.asarray(planar.THICK[did]))
    interior = scattering.stack_s_matrices_interior(layer_solve_results=layers, layer_thicknesses=ths)
    n = len(coeffs)
    oi = s["variant"] % n
    d = np.array(ax)
    for pol, vec in (("te", d), ("tm", np.array([-d[1], d[0]]))):
        h = np.zeros(2 * n, dtype=complex)
        h[oi], h[oi + n] = vec
        out = {}
        for name, sol, first in (("fromstart", layers[0], True), ("fromend", layers[-1], False)):
            inc = np.linalg.solve(np.asarray(sol.eigenvectors), h)[:, None]
            z = np.zeros_like(inc)
            amps = fields.stack_amplitudes_interior(
                s_matrices_interior=interior, forward_amplitude_0_start=jnp.asarray(inc if first else z),
                backward_amplitude_N_end=jnp.asarray(z if first else inc))
            rows = []
            for (a, b), so, t in zip(amps, layers, ths):
                row = []
                for zo in (jnp.asarray(0.0), t):
                    fa, ba = fields.colocate_amplitudes(a, b, z_offset=zo, layer_solve_result=so, layer_thickness=t)
                    (ex, ey, _), (hx, hy, _) = fields.fields_from_wave_amplitudes(
                        forward_amplitude=fa, backward_amplitude=ba, layer_solve_result=so)
                    at = lambda x, y: vec[0] * np.asarray(x)[oi, 0] + vec[1] * np.asarray(y)[oi, 0]
                    row += [cfin(at(hx, hy)), cfin(at(-ey, ex))]
                rows.append(row)
            out[name] = rows
        yield {"ev": "chan", "pol": pol, "w": int(round(w * 1e6)), "k": int(round(kmag * 1e6)), "layers": lj, **out}


def cfin(v):
    return planar.cx(v) if np.isfinite(v) and abs(v) < 1500 else [obs.NAN, obs.NAN]

"""C03 driver: net flux at planes through a stack; incoming and outgoing power."""

import jax.numpy as jnp
import numpy as np

import obs
import stacks
from fmmax import fields, scattering

SC = 10**8
FORMS = ["fft", "pol", "normal", "jones", "jones_direct"]


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 3])
    form = "fft"
    if s["cls"] == "grating" and s["exp"] == "e3":
        form = FORMS[s["sid"] % len(FORMS)]
    amb = s["nl"] > 0 and s["sid"] % 4 != 0
    st = stacks.structure(s["cls"], s["seed"] * 1000 + s["sid"], s["exp"], max(s["nl"], 1), tuple(s["batch"]), form, amb)
    layers, ths, n, m, ab = st["layers"], [jnp.asarray(t) for t in st["ths"]], st["n"], s["cols"], tuple(s["batch"])
    first, last = layers[0], layers[-1]
    prop = [np.ones(2 * n), np.ones(2 * n)]
    if amb:
        prop = [np.abs(np.asarray(x.eigenvalues).imag) < 1e-9 for x in (first, last)]
    a0 = stacks.amplitudes(rng, n, m, ab) * (s["side"] in (1, 3))
    bN = stacks.amplitudes(rng, n, m, ab) * (s["side"] in (2, 3))
    if amb:
        a0 = a0 * prop[0][..., None]
        bN = bN * prop[1][..., None]
    interior = scattering.stack_s_matrices_interior(layer_solve_results=layers, layer_thicknesses=ths)
    amps = fields.stack_amplitudes_interior(
        s_matrices_interior=interior, forward_amplitude_0_start=jnp.asarray(a0), backward_amplitude_N_end=jnp.asarray(bN))
    planes = []
    scale = 0.0
    for i, ((a, b), sol, t) in enumerate(zip(amps, layers, ths)):
        for j, f in enumerate((0.0, float(rng.uniform(0.1, 0.9)), 1.0)):
            fa, ba = fields.colocate_amplitudes(a, b, z_offset=t * f, layer_solve_result=sol, layer_thickness=t)
            kw = dict(forward_amplitude=fa, backward_amplitude=ba, layer_solve_result=sol)
            net = sum(np.asarray(x).sum(axis=-2) for x in fields.amplitude_poynting_flux(**kw))
            netdir = sum(np.asarray(x).sum(axis=-2) for x in fields.directional_poynting_flux(**kw))
            (ex, ey, _), (hx, hy, _) = [[np.asarray(c) for c in g] for g in fields.fields_from_wave_amplitudes(**kw)]
            nf = np.real(ex * hy.conj() - ey * hx.conj()).sum(axis=-2)
            size = (np.abs(ex) * np.abs(hy) + np.abs(ey) * np.abs(hx)).sum(axis=-2).max()
            scale = max(scale, float(size))
            kind = ("interface" if i else "first") if j == 0 else ("lossless" if st["lossless"][i] else "lossy")
            planes.append((kind, net, netdir, nf))
    if not 0 < scale < 1e5:
        return
    sh = tuple(ab) + (m,)
    bc = lambda x: obs.fix(np.broadcast_to(x, sh) if np.ndim(x) <= len(sh) else x, SC / scale)
    for kind, net, netdir, nf in planes:
        yield {"ev": "plane", "from": kind, "net": bc(net), "netdir": bc(netdir), "netfield": bc(nf)}
    if amb:
        end = len(layers) - 1
        fa, ba = fields.colocate_amplitudes(*amps[0], z_offset=jnp.asarray(0.0), layer_solve_result=first, layer_thickness=ths[0])
        fb, bb = fields.colocate_amplitudes(*amps[end], z_offset=ths[end], layer_solve_result=last, layer_thickness=ths[end])
        for fn in (fields.amplitude_poynting_flux, fields.directional_poynting_flux):
            sm = lambda x: np.broadcast_to(np.asarray(x).sum(axis=-2), sh)
            f0, b0 = map(sm, fn(forward_amplitude=fa, backward_amplitude=ba, layer_solve_result=first))
            f1, b1 = map(sm, fn(forward_amplitude=fb, backward_amplitude=bb, layer_solve_result=last))
            yield {"ev": "balance", "lossless": all(st["lossless"]), "incoming": bc(f0 - b1), "outgoing": bc(f1 - b0)}

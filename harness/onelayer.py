"""A homogeneous layer excited in one Fourier order and polarization."""

import numpy as np
import jax.numpy as jnp

import d_c02
import planar
from fmmax import fields


def channel(s):
    """Yields dicts for both polarizations of scenario s (stack[0] names the medium), or nothing."""
    ax, w, kmag, coeffs, uv, k0, g1, g2 = d_c02.setup(s)
    if d_c02.singular(s, w, coeffs, k0, g1, g2):
        return
    mid = s["stack"][0][0]
    lj = planar.layer_json_for(mid, 0.1, "x")
    if not d_c02.judgeable([lj], w, kmag):
        return
    rng = np.random.default_rng([s["seed"], s["sid"], 55])
    es = planar.entries(mid)
    sol = planar.solve(mid, 2 * np.pi / w, k0, uv, coeffs, ax, es[int(rng.integers(0, len(es)))],
                       shape=(1, 1) if rng.uniform() < 0.6 else (9, 9))
    n = len(coeffs)
    oi = s["variant"] % n
    d = np.array(ax)
    phi, q = np.asarray(sol.eigenvectors), np.asarray(sol.eigenvalues)
    for pol, vec in (("te", d), ("tm", np.array([-d[1], d[0]]))):
        h = np.zeros(2 * n, dtype=complex)
        h[oi], h[oi + n] = vec
        amp = np.linalg.solve(phi, h)
        double = phi.dtype == np.complex128
        qs = q[np.abs(amp) > (1e-7 if double else 1e-2)]
        qs = qs[np.argsort(-np.abs(qs - qs[0]))]  # all equal; otherwise one that differs comes first
        if np.abs(qs - qs[-1]).max() < 1e-6:
            qs = qs[::-1]
        hp = complex(*np.round(rng.uniform(-1, 1, size=2), 3))
        hm = complex(*np.round(rng.uniform(-1, 1, size=2), 3)) * int(s["variant"] % 3 > 0)
        a, b = jnp.asarray(amp[:, None] * hp), jnp.asarray(amp[:, None] * hm)
        yield {"pol": pol, "w": int(round(w * 1e6)), "k": int(round(kmag * 1e6)), "layer": lj, "q": planar.cx(qs[0]),
               "hp": planar.cx(hp), "hm": planar.cx(hm)}, sol, a, b, vec, oi


def observed(sol, a, b, vec, oi):
    (ex, ey, ez), (hx, hy, hz) = [[np.asarray(c)[:, 0] for c in g] for g in fields.fields_from_wave_amplitudes(
        forward_amplitude=a, backward_amplitude=b, layer_solve_result=sol)]
    at = lambda x, y, v: v[0] * x[oi] + v[1] * y[oi]
    perp = np.array([-vec[1], vec[0]])
    others = [c[j] for c in (ex, ey, ez, hx, hy, hz) for j in range(len(ex)) if j != oi]
    rest = max([abs(x) for x in others] + [abs(at(hx, hy, perp)), abs(at(-ey, ex, perp))])
    cx = planar.cx
    return {"h": cx(at(hx, hy, vec)), "e": cx(at(-ey, ex, vec)), "ez": cx(ez[oi]), "hz": cx(hz[oi]), "rest": cx(rest)}

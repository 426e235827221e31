"""C02 driver: scattering matrices of homogeneous stacks, per order and polarization."""

import numpy as np
import jax.numpy as jnp

import obs
import planar
from fmmax import basis, scattering

EXPS = {
    1: [[0, 0]],
    2: [[0, 0], [1, 0], [-1, 0]],
    3: [[0, 0], [0, 1], [0, -1], [1, 0], [-1, 0]],
    4: [[0, 0], [1, 1], [2, 1]],
    5: [[1, 0], [0, 0], [-1, 2]],
}
S = 10**6


def setup(s):
    """Common scenario decoding: media ids, thicknesses, geometry."""
    cf = s["cfg"]
    ax = planar.AXES[cf["ax"]]
    w = planar.W[cf["w"]]
    kmag = planar.KMAG[cf["k"]]
    coeffs = EXPS[cf["e"]]
    # Lattice with reciprocal vectors (times 2 pi) g1 = 1.5 ax, g2 = 1.0 perp + 0.25 ax (decimals).
    c_, s_ = ax
    if s["variant"] % 2:
        g1, g2 = np.array([1.5 * c_, 1.5 * s_]), np.array([-1.0 * s_, 1.0 * c_])
    else:
        g1, g2 = np.array([1.25 * c_, 1.25 * s_]), np.array([-s_ + 0.25 * c_, c_ + 0.25 * s_])
    # Real-space lattice: u . g1 = 2 pi, u . g2 = 0, ...
    m = np.linalg.inv(np.stack([g1, g2])) * 2 * np.pi
    uv = (tuple(m[:, 0]), tuple(m[:, 1]))
    # The wavevector of the order of interest is kmag along ax.
    oi = s["variant"] % len(coeffs)
    k0 = kmag * np.array(ax) - coeffs[oi][0] * g1 - coeffs[oi][1] * g2
    return ax, w, kmag, coeffs, uv, k0, g1, g2


def q2s(L, w, kk):
    if "g" in L:
        e, m, g, h = (complex(*v) / 1e6 for v in (L["e"][0], L["m"][0], L["g"], L["gm"]))
        return w * w * (e - g) * (m - h), w * w * (e + g) * (m + h)
    e = [complex(*v) / 1e6 for v in L["e"]]
    m = [complex(*v) / 1e6 for v in L["m"]]
    return w * w * e[1] * m[0] - kk * kk * m[0] / m[2], w * w * e[0] * m[1] - kk * kk * e[0] / e[2]


def judgeable(lj, w, kk):
    """Keep clear of grazing waves (q near zero) and of strong attenuation: fixed point accuracy."""
    att = [0.0, 0.0]
    for L in lj:
        for p, q2 in enumerate(q2s(L, w, kk)):
            q = np.sqrt(q2 + 0j)
            if abs(q) < 0.35:
                return False
            att[p] += abs(q.imag) * L["d"] / 1e6
    return max(att) < 2.6


def singular(s, w, coeffs, k0, g1, g2):
    """Some order is exactly at cutoff in some layer: Maxwell's modes do not span."""
    for mid, did in s["stack"]:
        if mid in planar.GYRO:
            continue
        for g in coeffs:
            kv = k0 + g[0] * g1 + g[1] * g2
            for adir in ("x", "y"):
                L = planar.layer_json_for(mid, 0.1, adir)
                if min(abs(q2) for q2 in q2s(L, w, float(np.hypot(*kv)))) < 1e-4:
                    return True
    return False


def run(s):
    ax, w, kmag, coeffs, uv, k0, g1, g2 = setup(s)
    if singular(s, w, coeffs, k0, g1, g2):
        return
    wl = 2 * np.pi / w
    rng = np.random.default_rng([s["seed"], s["sid"], 2])
    layers, ths = [], []
    for mid, did in s["stack"]:
        es = planar.entries(mid)
        entry = es[int(rng.integers(0, len(es)))]
        shape = (1, 1) if rng.uniform() < 0.55 else (7, 8)
        layers.append(planar.solve(mid, wl, k0, uv, coeffs, ax, entry, shape))
        ths.append(jnp.asarray(planar.THICK[did]))
    sm = scattering.stack_s_matrix(layer_solve_results=layers, layer_thicknesses=ths)
    n = len(coeffs)
    phi0 = np.asarray(layers[0].eigenvectors)
    phiN = np.asarray(layers[-1].eigenvectors)
    inv0, invN = np.linalg.inv(phi0), np.linalg.inv(phiN)
    b = {"s11": phiN @ np.asarray(sm.s11) @ inv0, "s12": phiN @ np.asarray(sm.s12) @ invN,
         "s21": phi0 @ np.asarray(sm.s21) @ inv0, "s22": phi0 @ np.asarray(sm.s22) @ invN}
    for i, g in enumerate(coeffs):
        kv = k0 + g[0] * g1 + g[1] * g2
        kl = kv @ np.array(ax)
        kt = kv @ np.array([-ax[1], ax[0]])
        gyro = any(mid in planar.GYRO for mid, _ in s["stack"])
        if gyro and np.hypot(*kv) > 1e-9:
            continue
        if gyro:
            adir, d, kk = "circ", None, 0.0
        elif abs(kt) < 1e-9:
            adir, d, kk = "x", np.array(ax), kl
        elif abs(kl) < 1e-9:
            adir, d, kk = "y", np.array([-ax[1], ax[0]]), kt
        else:
            kk = float(np.hypot(*kv))
            adir, d = "any", kv / kk
        lj = [planar.layer_json_for(mid, planar.THICK[did], adir) for mid, did in s["stack"]]
        if any(x is None for x in lj):
            continue
        if not judgeable(lj, w, kk):
            continue
        if s.get("x32") and max(float(np.abs(M[np.ix_([i, i + n], [i, i + n])]).max()) for M in b.values()) > 2.5:
            continue  # resonant: single precision decides nothing
        # Columns: TE (H along k) and TM, or the circular polarizations (1, i) and (1, -i).
        P = np.array([[1, 1], [1j, -1j]]) / np.sqrt(2) if gyro else np.array([[d[0], -d[1]], [d[1], d[0]]])
        ev = {"ev": "circ" if gyro else "chan", "w": int(round(w * S)), "k": int(round(kk * S)), "layers": lj, "g": g}
        leak = 0.0
        sel = [i, i + n]
        for name, M in b.items():
            blk = P.conj().T @ M[np.ix_(sel, sel)] @ P
            ev[name] = [planar.cx(v) if np.isfinite(v) else [obs.NAN, obs.NAN] for v in blk.ravel()]
            oth = [j for j in range(2 * n) if j not in sel]
            if oth:
                leak = max(leak, float(np.abs(M[np.ix_(sel, oth)]).max()), float(np.abs(M[np.ix_(oth, sel)]).max()))
        ev["leak"] = obs.fix1(leak, S)
        yield ev

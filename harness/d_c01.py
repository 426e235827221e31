"""C01 driver: replays histories of scattering-matrix operations."""

import functools

import jax
import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import scattering

SCALE = 10**7


@functools.lru_cache(maxsize=None)
def flavour(name):
    """(layers by number, thickness by number, options)."""
    uv = [[1.1, 0.0], [0.2, 0.9]]
    k = [0.31, -0.17]
    wl = 0.83
    exp = lib.expansion([[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]])
    u = lambda e: np.full((1, 1), e, dtype=complex)
    th = [0.0, 0.23, 0.61]
    opts = {}
    if name == "uniform":
        ls = [lib.iso(wl, k, uv, u(e), exp) for e in (1.3, 2.9 + 0.4j, -2.0 + 0.7j)]
    elif name == "patterned":
        ls = [lib.iso(wl, k, uv, lib.pattern(s, (12, 11), 1.4, 5.0, l), exp) for s, l in ((1, 0.0), (2, 0.3), (3, 1.0))]
        opts["scan"] = True
    elif name == "vector":
        ls = [lib.iso(wl, k, uv, u(2.1), exp),
              lib.iso(wl, k, uv, lib.pattern(5, (12, 11), 1.4, 5.0, 0.2), exp, "pol"),
              lib.iso(wl, k, uv, lib.pattern(6, (12, 11), 1.4, 5.0, 0.1), exp, "jones_direct")]
    elif name == "aniso":
        ls = [lib.gen(wl, k, uv, lib.tensor(1, (9, 8), loss=0.2), None, exp),
              lib.gen(wl, k, uv, [u(2.0), u(0.2), u(0.1), u(2.7), u(3.1 + 0.1j)], None, exp),
              lib.gen(wl, k, uv, lib.tensor(3, (9, 8), loss=0.5), None, exp)]
    elif name == "magnetic":
        ls = [lib.gen(wl, k, uv, lib.tensor(1, (9, 8), loss=0.2), lib.tensor(2, (9, 8), lo=1.0, hi=1.8, off=0.1), exp),
              lib.gen(wl, k, uv, lib.tensor(3, (9, 8), loss=0.3), lib.tensor(4, (9, 8), lo=1.0, hi=1.8, off=0.1), exp),
              lib.gen(wl, k, uv, lib.tensor(5, (9, 8), loss=0.0), lib.tensor(6, (9, 8), lo=1.2, hi=1.9, off=0.2), exp)]
        opts["scan"] = True
    elif name == "batched":
        ks = np.stack([np.array(k), np.array([0.05, 0.4]), np.array([-0.6, 0.02])])
        wls = np.array([0.83, 0.7, 1.1])
        ls = [lib.iso(wls, ks, uv, lib.pattern(s, (11, 12), 1.4, 5.0, 0.2), exp) for s in (1, 2, 3)]
        th = [np.zeros((3, 1)), np.array([[0.1], [0.4], [0.25]]), np.float64(0.37)]
    elif name == "mixedrank":
        ks = np.array(k)[None, None, :] + np.array([0.0, 0.2])[:, None, None] * np.array([1.0, 0.5])
        ls = [lib.iso(wl, k, uv, lib.pattern(7, (11, 12), 1.4, 5.0, 0.2), exp),
              lib.iso(wl, k, uv, lib.pattern(8, (11, 12), 1.4, 5.0, 0.1, batch=(3,)), exp),
              lib.iso(np.full((2, 1), wl), ks[:, 0:1, :] * 0 + np.array(k), uv,
                      lib.pattern(9, (11, 12), 1.4, 5.0, 0.3, batch=(2, 1)), exp)]
    elif name == "rank2n":
        exp2 = lib.expansion([[0, 0], [1, 1]])
        ls = [lib.iso(wl, k, uv, lib.pattern(10, (11, 12), 1.4, 5.0, 0.2), exp2),
              lib.iso(wl, k, uv, lib.pattern(11, (11, 12), 1.4, 5.0, 0.1, batch=(4,)), exp2),
              lib.iso(wl, k, uv, lib.pattern(12, (11, 12), 1.4, 5.0, 0.3, batch=(2, 4)), exp2)]
    elif name == "lattbatch":
        uvb = [np.array([[1.1, 0.0], [0.8, 0.1]]), np.array([[0.2, 0.9], [0.0, 1.3]])]
        ls = [lib.iso(wl, k, uvb, lib.pattern(s, (11, 12), 1.4, 5.0, 0.2), exp) for s in (13, 14, 15)]
        opts["scan"] = True
    elif name == "single":
        exp1 = lib.expansion([[0, 0]])
        ls = [lib.iso(wl, k, uv, lib.pattern(16, (7, 5), 1.4, 5.0, 0.0), exp1),
              lib.iso(wl, k, uv, u(1.0), exp1),
              lib.gen(wl, k, uv, lib.tensor(3, (5, 7), loss=0.1), None, exp1)]
    elif name == "skew64":
        uv2 = [[0.9, -0.3], [0.35, 1.2]]
        e2 = lib.gen_expansion(uv2, 14)
        ls = [lib.iso(1.21, [0.0, 0.0], uv2, lib.pattern(s, (15, 14), 1.4, 7.0, 0.4), e2) for s in (17, 18, 19)]
        opts["x64"] = True
        opts["scan"] = True
    else:
        raise ValueError(name)
    return ls, [jnp.asarray(t) for t in th], opts


def recognise_layer(sol, layers):
    q = np.asarray(sol.eigenvalues)
    phi = np.asarray(sol.eigenvectors)
    om = np.asarray(sol.omega_script_k_matrix)
    for i, l in enumerate(layers):
        for a, b in ((q, l.eigenvalues), (phi, l.eigenvectors), (om, l.omega_script_k_matrix)):
            if a.shape != b.shape or not np.allclose(a, np.asarray(b), rtol=1e-9, atol=1e-9):
                break
        else:
            return i + 1
    return 0


def recognise_thickness(t, ths):
    t = np.asarray(t)
    for i, x in enumerate(ths):
        x = np.asarray(x)
        try:
            if np.allclose(np.broadcast_to(t, np.broadcast_shapes(t.shape, x.shape)), x, rtol=1e-12, atol=1e-12):
                return i + 1
        except ValueError:
            pass
    return 0


@functools.lru_cache(maxsize=4096)
def reference(name, den):
    ls, ths, _ = flavour(name)
    s = lib.dense_s([ls[l - 1] for l, _ in den], [ths[t - 1] for _, t in den])
    shape = list(s[0].shape)
    return [x for b, m in enumerate(s) for x in obs.fingerprint(m, 3, b, SCALE)], shape


def run(scn):
    name = scn["flavour"]
    ls, ths, opts = flavour(name)
    kw = {"force_x64_solve": True} if opts.get("x64") else {}
    yield {"ev": "begin"}
    pool = []

    def stack(st):
        return [ls[l - 1] for l, _ in st], [ths[t - 1] for _, t in st]

    for o, den in zip(scn["ops"], scn["dens"]):
        op = o["op"]
        if op == "build":
            a, b = stack(o["st"])
            s = scattering.stack_s_matrix(layer_solve_results=a, layer_thicknesses=b, **kw)
        elif op == "scan":
            a, b = stack(o["st"])
            batched = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *a)
            s = scattering.stack_s_matrix_scan(
                layer_solve_results=batched, layer_thicknesses=jnp.stack(b), **kw)
        elif op in ("before", "after"):
            a, b = stack(o["st"])
            s = scattering.stack_s_matrices_interior(
                layer_solve_results=a, layer_thicknesses=b, **kw)[o["k"] - 1][0 if op == "before" else 1]
        elif op == "append":
            s = scattering.append_layer(pool[o["i"] - 1], ls[o["l"] - 1], ths[o["t"] - 1], **kw)
        elif op == "prepend":
            s = scattering.prepend_layer(pool[o["i"] - 1], ls[o["l"] - 1], ths[o["t"] - 1], **kw)
        elif op == "star":
            s = scattering.redheffer_star_product(pool[o["i"] - 1], pool[o["j"] - 1], **kw)
        elif op == "setend":
            s = scattering.set_end_layer_thickness(pool[o["i"] - 1], ths[o["t"] - 1])
        elif op == "setstart":
            s = scattering.set_start_layer_thickness(pool[o["i"] - 1], ths[o["t"] - 1])
        pool.append(s)
        ref, refshape = reference(name, tuple(map(tuple, den)))
        # Blocks are compared after broadcasting to the batch shape of the stack.
        blocks = []
        shp = refshape
        for x in (s.s11, s.s12, s.s21, s.s22):
            x = np.asarray(x)
            try:
                x = np.broadcast_to(x, tuple(refshape))
            except ValueError:
                shp = list(x.shape)
            blocks.append(x)
        fp = [v for b, m in enumerate(blocks) for v in obs.fingerprint(m, 3, b, SCALE)]
        yield {
            "ev": "op", "o": o, "den": den, "fp": fp, "ref": ref, "shape": shp, "refshape": refshape,
            "sl": recognise_layer(s.start_layer_solve_result, ls),
            "el": recognise_layer(s.end_layer_solve_result, ls),
            "st": recognise_thickness(s.start_layer_thickness, ths),
            "et": recognise_thickness(s.end_layer_thickness, ths),
        }

"""C11 driver: structures and their images under sequences of symmetry operations."""

import jax.numpy as jnp
import numpy as np

import lib
import obs
import stacks
from fmmax import scattering

J = jnp.asarray
EXP = {"e5": [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]], "e4": [[0, 0], [1, 1], [-1, -1], [1, 0]], "e3": [[0, 0], [0, 1], [0, -1]]}
ROT = [(0.6, 0.8), (-0.8, 0.6), (0.28, -0.96), (0.0, 1.0), (-1.0, 0.0)]
F6 = lambda x: int(round(x * 1e6))


def structure(s, rng):
    shape = tuple(s["shape"])
    uv, wl, k = stacks.geometry(rng, "e5")
    layers = []
    sd = s["seed"] * 7919 + s["sid"] * 11
    for i, kind in enumerate(s["kinds"]):
        t = float(np.round(rng.uniform(0.1, 0.5), 3))
        u = np.ones(shape, dtype=complex)
        z = 0 * u
        one = [u, z, z, u, u]
        if kind == "iso":
            e = lib.pattern(sd + i, shape, 1.4, 4.5, 0.3 * (i % 2))
            layers.append(["iso", [e, z, z, e, e], one, t])
        elif kind == "tensor":
            layers.append(["aniso", lib.tensor(sd + i, shape, lo=2.0, hi=4.0, off=0.25, loss=0.3), one, t])
        elif kind == "gen":
            layers.append(["gen", lib.tensor(sd + i, shape, lo=2.0, hi=4.0, off=0.25), lib.tensor(sd + 50 + i, shape, lo=1.0, hi=1.9, off=0.15), t])
        elif kind == "uniform":
            e = np.full((1, 1), 1.3 + rng.uniform(0, 2) + 0j)
            layers.append(["iso", [e, 0 * e, 0 * e, e, e], [np.ones((1, 1)) + 0j, 0 * e, 0 * e, np.ones((1, 1)) + 0j, np.ones((1, 1)) + 0j], t])
    if s.get("finding") == "vortex":
        i, j = np.meshgrid(np.arange(9), np.arange(8), indexing="ij")
        e = np.where((np.minimum(i, 9 - i) < 3) & (np.minimum(j, 8 - j) < 2), 3.5, 1.5) + 0j
        layers = [["aniso", [e, 0.04 * e, 0.02 * e, 1.1 * e, 0.9 * e], [e / e, 0 * e, 0 * e, e / e, e / e], 0.23]]
        uv, wl, k = [[1.0, 0.0], [0.0, 1.0]], 1.37, [0.0, 0.0]
    return {"uv": np.array(uv, dtype=float), "wl": wl, "k": np.array(k), "layers": layers, "orders": [list(g) for g in EXP[s["exp"]]],
            "amb": [1.0, 2.1], "form": s["form"]}


def tmap(layers, fn):
    return [[a, [fn(x) for x in e], [fn(x) for x in m], t] for a, e, m, t in layers]


def turn(ten, R):
    xx, xy, yx, yy, zz = ten
    a = np.array([[xx, xy], [yx, yy]])
    b = np.einsum("ia,abxy,jb->ijxy", R, a, R)
    return [b[0, 0], b[0, 1], b[1, 0], b[1, 1], zz]


def apply(st, name, rng):
    """(new structure, recorded operation) or None when the operation does not fit the grid."""
    st = dict(st)
    shapes = [l[1][0].shape for l in st["layers"] if l[1][0].shape != (1, 1)]
    nx, ny = shapes[0] if shapes else (6, 6)
    pat = lambda f: (lambda x: x if x.shape == (1, 1) else f(x))
    if name == "scale":
        f = float(rng.choice([0.37, 2.5, 1.0e3, 1.7]))
        st["uv"], st["wl"], st["k"] = st["uv"] * f, st["wl"] * f, st["k"] / f
        st["layers"] = [[a, e, m, t * f] for a, e, m, t in st["layers"]]
        return st, {"op": "scale"}
    if name == "shift":
        i, j = int(rng.integers(1, nx)), int(rng.integers(0, ny))
        st["layers"] = tmap(st["layers"], pat(lambda x: np.roll(x, (i, j), axis=(0, 1))))
        return st, {"op": "shift", "i": i, "j": j, "nx": nx, "ny": ny}
    if name in ("rot", "rot90", "mirror"):
        if name == "mirror":
            R, op = np.array([[-1.0, 0], [0, 1.0]]), {"op": "mirror"}
        else:
            c, sn = ROT[int(rng.integers(0, 3))] if name == "rot" else ROT[3 + int(rng.integers(0, 2))]
            R, op = np.array([[c, -sn], [sn, c]]), {"op": "rot", "c": F6(c), "s": F6(sn)}
        st["uv"], st["k"] = st["uv"] @ R.T, R @ st["k"]
        st["layers"] = [[a, e if a == "iso" else turn(e, R), m if a != "gen" else turn(m, R), t] for a, e, m, t in st["layers"]]
        return st, op
    if name == "swap":
        st["uv"] = st["uv"][::-1]
        st["layers"] = tmap(st["layers"], lambda x: x.T)
        st["orders"] = [[g[1], g[0]] for g in st["orders"]]
        return st, {"op": "swap"}
    if name in ("negu", "negv"):
        ax = 0 if name == "negu" else 1
        sg = [1, 1]
        sg[ax] = -1
        st["uv"] = st["uv"] * np.array(sg)[:, None]
        st["layers"] = tmap(st["layers"], pat(lambda x: np.roll(np.flip(x, axis=ax), 1, axis=ax)))
        st["orders"] = [[g[0] * sg[0], g[1] * sg[1]] for g in st["orders"]]
        return st, {"op": name}
    if name == "shear":
        m = int(rng.choice([-2, 2, 1, -1]))
        if (m * nx) % ny:
            return None
        orders = [[g[0], g[1] + m * g[0]] for g in st["orders"]]
        if any(2 * max(abs(g[a]) for g in orders) + 1 > (nx, ny)[a] for a in (0, 1)):
            return None
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        st["uv"] = np.array([st["uv"][0], st["uv"][1] + m * st["uv"][0]])
        st["layers"] = tmap(st["layers"], pat(lambda x: x[(i + (m * nx // ny) * j) % nx, j]))
        st["orders"] = orders
        return st, {"op": "shear", "m": m}
    if name == "super":
        a, b = [(2, 1), (1, 2), (2, 2), (3, 1)][int(rng.integers(0, 4))]
        st["uv"] = st["uv"] * np.array([[a], [b]])
        st["layers"] = tmap(st["layers"], pat(lambda x: np.tile(x, (a, b))))
        base = [[a * g[0], b * g[1]] for g in st["orders"]]
        extra = [[g[0] + (1 if a > 1 else 0), g[1] + (1 if b > 1 else 0)] for g in base[:2]]
        both = base + extra
        st["orders"] = [both[i] for i in rng.permutation(len(both))]
        if any(2 * max(abs(g[x]) for g in st["orders"]) + 1 > (nx * a, ny * b)[x] for x in (0, 1)):
            return None
        return st, {"op": "super", "a": a, "b": b}
    if name == "reverse":
        st["layers"] = st["layers"][::-1]
        st["amb"] = st["amb"][::-1]
        return st, {"op": "reverse"}
    if name == "split":
        i = int(rng.integers(0, len(st["layers"])))
        f = float(np.round(rng.uniform(0.2, 0.8), 2))
        a, e, m, t = st["layers"][i]
        st["layers"] = st["layers"][:i] + [[a, e, m, t * f], [a, e, m, t * (1 - f)]] + st["layers"][i + 1:]
        return st, {"op": "split"}
    raise ValueError(name)


def smatrix(st, basis="H"):
    exp = lib.expansion(st["orders"])
    wl, k, uv = st["wl"], st["k"], st["uv"]
    if basis == "dual" or basis == "E":
        sols = [lib.gen(wl, k, uv, e, m, exp, "fft") for _, e, m, _ in st["layers"]]
    else:
        sols = []
        for a, e, m, _ in st["layers"]:
            sols.append(lib.iso(wl, k, uv, e[0], exp, st["form"]) if a == "iso" else lib.gen(wl, k, uv, e, None if a == "aniso" else m, exp, st["form"]))
    if basis == "H":
        amb = [lib.iso(wl, k, uv, np.full((1, 1), e + 0j), exp) for e in st["amb"]]
        sols = [amb[0]] + sols + [amb[1]]
        ths = [0.0] + [l[3] for l in st["layers"]] + [0.0]
    else:
        ths = [0.0] + [l[3] for l in st["layers"][1:-1]] + [0.0]
    S = scattering.stack_s_matrix(sols, [J(t) for t in ths])
    def conv(sol):
        q, phi = np.asarray(sol.eigenvalues), np.asarray(sol.eigenvectors)
        return np.asarray(sol.omega_script_k_matrix) @ phi / q[None, :] if basis == "E" else phi
    f0, f1 = conv(sols[0]), conv(sols[-1])
    i0, i1 = np.linalg.inv(f0), np.linalg.inv(f1)
    b = [np.asarray(x) for x in (S.s11, S.s12, S.s21, S.s22)]
    return {"11": f1 @ b[0] @ i0, "12": f1 @ b[1] @ i1, "21": f0 @ b[2] @ i0, "22": f0 @ b[3] @ i1}


def record(A, B):
    big = max(1.0, max(float(np.abs(x[np.isfinite(x)]).max()) if np.isfinite(x).any() else 1.0 for x in list(A.values()) + list(B.values())) / 4)
    return {k: obs.cfix(v / big, 10**6) for k, v in A.items()}, {k: obs.cfix(v / big, 10**6) for k, v in B.items()}


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 11])
    st = structure(s, rng)
    if s.get("dual"):
        # Ambient media with both permittivity and permeability.
        c = lambda v: np.full((1, 1), v + 0j)
        amb = lambda e, m: ["gen", [c(e), c(0), c(0), c(e), c(e)], [c(m), c(0), c(0), c(m), c(m)], 0.0]
        st["layers"] = [amb(1.3, 1.2)] + st["layers"] + [amb(1.9, 1.1)]
        A = smatrix(st, "E")
        d = dict(st)
        d["layers"] = [[a, m, e, t] for a, e, m, t in st["layers"]]
        B = smatrix(d, "dual")
        x, y = record(A, B)
        yield {"ev": "dual", "orders": st["orders"], "s": x, "t": y}
        return
    A = smatrix(st)
    cur, ops = st, []
    for name in s["ops"]:
        nxt = apply(cur, name, rng)
        if nxt is not None:
            cur, rec = nxt
            ops.append(rec)
    if not ops:
        return
    B = smatrix(cur)
    x, y = record(A, B)
    yield {"ev": "sym", "ops": ops, "orders": st["orders"], "orders2": [[int(a) for a in g] for g in cur["orders"]], "s": x, "t": y}

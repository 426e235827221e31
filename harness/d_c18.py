"""C18 driver: tangent fields of structures and of their images."""

import jax.numpy as jnp
import numpy as np

import lib
import obs
from fmmax import vector

F6 = lambda x: int(round(x * 1e6))
ROT = [(0.6, 0.8), (-0.8, 0.6), (0.28, -0.96), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]
LATS = {"square": [[1.2, 0.0], [0.0, 1.2]], "rect": [[0.0, 0.8], [-1.7, 0.0]], "hex": [[1.0, 0.0], [0.5, 0.8660254]],
        "oblique": [[1.1, 0.2], [-0.35, 0.9]], "sheared": [[0.9, 0.1], [1.5, 1.0]], "left": [[0.3, 1.0], [1.1, 0.1]]}


def field(scheme, arr, orders, uv):
    tx, ty = vector.VECTOR_FIELD_SCHEMES[scheme](jnp.asarray(arr), lib.expansion(orders), lib.lattice(uv))
    return np.asarray(tx), np.asarray(ty)


def quad(t):
    tx, ty = t
    c = tx * np.conj(ty)
    return np.stack([np.abs(tx) ** 2, np.abs(ty) ** 2, c.real, np.abs(c.imag)], axis=-1)


def ofix(t):
    return obs.fix(quad(t), 10**6)


def profile(rng, m, kind):
    """A periodic profile with m samples that is not constant."""
    x = np.arange(m) / m
    if kind == "step":
        f = np.where(x < rng.uniform(0.3, 0.7), 1.0, rng.uniform(2, 6)) + 0j
    elif kind == "lossy":
        f = np.where(x < 0.4, 1.5, 3.0 + 2.0j)
    elif kind == "three":
        f = np.where(x < 0.3, 1.5, np.where(x < 0.65, 2.0 + 1.0j, -4.0 + 0.3j))
    else:
        f = 3 + np.cos(2 * np.pi * (x + rng.uniform())) + 0.3 * np.sin(4 * np.pi * x) + 0j
    return f if kind in ("lossy", "three") else f.real


def line(s, rng):
    a, b = s["n"]
    m = s["m"]
    if a and b:
        nx, ny = abs(a) * m, abs(b) * m
    elif a:
        nx, ny = abs(a) * m, {"singleton": 1}.get(s["other"], 7)
    else:
        nx, ny = {"singleton": 1}.get(s["other"], 7), abs(b) * m
    f = profile(rng, m, s["profile"])
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    arr = f[(np.sign(a) * i + np.sign(b) * j) % m]
    orders = [[0, 0]] + [[k * a, k * b] for k in (1, -1, 2, -2)]
    if nx > 1 and ny > 1:
        extra = [[1, 0], [0, 1], [-1, 1], [1, 1], [0, -1]]
        orders += [g for g in extra if g not in orders][: int(rng.integers(0, 4))]
    uv = np.array(s["L"], dtype=float)
    uv = uv / np.abs(uv).max() * float(rng.choice([0.7, 1.0, 30.0]))
    t = field(s["scheme"], arr, orders, uv)
    o = ofix(t)
    size = [nx, ny]
    w = uv / np.abs(uv).max()
    yield {"ev": "field", "scheme": s["scheme"], "size": size, "o": o}
    yield {"ev": "line", "scheme": s["scheme"], "size": size, "n": [a, b], "u": [F6(x) for x in w[0]], "v": [F6(x) for x in w[1]], "o": o}


def apply(st, name, rng):
    st = dict(st)
    a = st["arr"]
    rev = lambda x, ax: np.roll(np.flip(x, axis=ax), 1, axis=ax)
    g = np.array(st["orders"])
    orth = abs(np.dot(st["uv"][0], st["uv"][1])) < 1e-12
    if name == "scale":
        st["uv"] = st["uv"] * float(rng.choice([1e-3, 0.31, 7.0, 550.0]))
        return st, {"op": "scale"}
    if name == "contrast":
        f = complex(rng.choice([0.2, 3.7, -1.5, 40.0]))
        st["arr"] = a * (f if np.iscomplexobj(a) else f.real)
        return st, {"op": "contrast"}
    if name == "offset":
        st["arr"] = a + float(rng.choice([2.0, -3.0, 11.0]))
        return st, {"op": "offset"}
    if name == "batch":
        st["batch"] = True
        return st, {"op": "batch"}
    if name in ("rot", "mirror"):
        if name == "mirror":
            R, op = np.array([[-1.0, 0], [0, 1.0]]), {"op": "mirror"}
        else:
            c, sn = ROT[int(rng.integers(0, len(ROT)))]
            R, op = np.array([[c, -sn], [sn, c]]), {"op": "rot", "c": F6(c), "s": F6(sn)}
        st["uv"] = st["uv"] @ R.T
        return st, op
    if name == "swap":
        st["uv"], st["arr"], st["orders"] = st["uv"][::-1], a.T, g[:, ::-1].tolist()
        return st, {"op": "swap"}
    if name == "half":
        st["arr"], st["orders"] = rev(rev(a, 0), 1), (-g).tolist()
        return st, {"op": "half"}
    if not orth:
        return None
    if name in ("negu", "negv"):
        ax = 0 if name == "negu" else 1
        sg = np.ones(2, dtype=int)
        sg[ax] = -1
        st["uv"], st["arr"], st["orders"] = st["uv"] * sg[:, None], rev(a, ax), (g * sg).tolist()
        return st, {"op": name}
    if name == "flipx":  # The pattern is mirrored in place; u lies along x.
        if abs(st["uv"][0][1]) > 1e-12:
            return None
        st["arr"], st["orders"] = rev(a, 0), (g * np.array([-1, 1])).tolist()
        return st, {"op": "flipx"}
    raise ValueError(name)


def evaluate(scheme, st):
    if st.get("batch"):
        rng = np.random.default_rng(5)
        arrs = np.stack([rng.uniform(1, 4, size=st["arr"].shape), st["arr"], np.ones_like(st["arr"])])
        uvs = np.stack([st["uv"] * 1.5, st["uv"], st["uv"][::-1]])
        tx, ty = field(scheme, arrs, st["orders"], (uvs[:, 0], uvs[:, 1]))
        return tx[1], ty[1]
    return field(scheme, st["arr"], st["orders"], st["uv"])


def run(s):
    rng = np.random.default_rng([s["seed"], s["sid"], 18])
    if s["mode"] == "line":
        yield from line(s, rng)
        return
    if s["mode"] == "super":
        n = 4
        shape = (20, 18)
        i, j = np.meshgrid(np.arange(shape[0]) / shape[0], np.arange(shape[1]) / shape[1], indexing="ij")
        arr = 2 + np.cos(2 * np.pi * i) + 0.8 * np.cos(2 * np.pi * (j + 0.1)) + 0.3 * np.sin(2 * np.pi * (i + j))
        uv = np.array(LATS[s["lat"]])
        a, b = s["reps"]
        box = lambda p, q: sorted(([x, y] for x in range(-p, p + 1) for y in range(-q, q + 1)), key=lambda g: g[0] ** 2 + g[1] ** 2)
        t = field(s["scheme"], arr, box(n, n), uv)
        t2 = field(s["scheme"], np.tile(arr, (a, b)), box(a * n + (a > 1), b * n + (b > 1)), uv * np.array([[a], [b]]))
        yield {"ev": "super", "scheme": s["scheme"], "size": list(shape), "size2": [shape[0] * a, shape[1] * b], "o": ofix(t), "o2": ofix(t2)}
        return
    shape = tuple(s["shape"])
    arr = lib.pattern(s["seed"] * 131 + s["sid"], shape, 1.2, 4.0, 0.4 if s["kind"] == "lossy" else 0.0)
    if s["kind"] == "uniform":
        arr = np.full(shape, 2.5 + 0j)
    elif s["kind"] == "centred":
        i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
        w = np.cos(2 * np.pi * i / shape[0]) + np.cos(2 * np.pi * j / shape[1])
        arr = np.where(w > 0.7, 3.0 + 0j, 1.0)
    elif s["kind"] == "density":
        arr = np.where(arr.real > 2, 1.0, 0.0)
    if s["kind"] != "lossy":
        arr = arr.real
    n = s["exp"]
    orders = [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1], [1, -1], [-1, 1], [2, 0], [-2, 0], [0, 2], [0, -2]][:n]
    st = {"arr": arr, "orders": orders, "uv": np.array(LATS[s["lat"]])}
    t = evaluate(s["scheme"], st)
    o = ofix(t)
    yield {"ev": "field", "scheme": s["scheme"], "size": list(shape), "o": o}
    if s["kind"] in ("uniform",):
        return
    cur, ops = st, []
    for name in s["ops"]:
        nxt = apply(cur, name, rng)
        if nxt is not None:
            cur, rec = nxt
            ops.append(rec)
    if ops:
        t2 = evaluate(s["scheme"], cur)
        yield {"ev": "same", "scheme": s["scheme"], "ops": ops, "size": list(shape), "size2": list(cur["arr"].shape), "o": o, "o2": ofix(t2)}

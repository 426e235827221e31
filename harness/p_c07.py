"""C07: Fourier expansions are complete, symmetric and ordered."""

import random

import core

TECHNIQUE = ("TLA+ integer lattice model of both truncations (TLC, exhaustive over small lattices); expansions generated "
             "by fmmax for enumerated lattices and sizes validated order by order against the TLA+ membership predicates")
NOTE = ("Membership decided in exact integer arithmetic with rational bounds on pi; exhaustive design model over small "
        "integer lattices; the code is judged on several hundred lattices (aspect ratios up to 60) and all small sizes.")
ASSUMPTIONS = ["lattice vectors are integer multiples of a scale, so orderings are decided exactly",
               "orders within a relative 1e-4 of the circle boundary may be in or out"]

BASE = [
    [1, 0, 0, 1], [2, 0, 0, 3], [1, 0, 0, 7], [12, 0, 0, 1], [1, 0, 0, 30], [40, 0, 0, 1], [3, 4, -4, 3],
    [2, 1, 1, 2], [1, 0, 3, 1], [5, 1, 2, -3], [7, 0, 3, 6], [0, 1, 1, 0], [-2, 1, 3, 4], [6, 8, 0, 5],
    [10, 0, 5, 9], [3, 0, 2, 1], [9, 2, 9, 4], [1, 5, -6, 2], [60, 0, 0, 7], [4, 3, 12, -9], [8, 15, 3, -4],
]


def check(c):
    th = core.tier() == "thorough"
    c.model("C07", core.cfg(
        invariants=["HasZero", "Symmetric", "Bracketed", "BoxLarge", "Sheared", "Swapped"]), workers=core.NCPU,
        defs={"Coord": "{-2, -1, 0, 1, 2, 3}" if th else "{-2, 0, 1, 3}", "Nums": "{1, 2, 3, 5, 9, 14, 30}"})
    rng = random.Random(core.seed())
    lats = list(BASE)
    while len(lats) < (400 if th else 90):
        L = [rng.randint(-12, 12) for _ in range(4)]
        if abs(L[0] * L[3] - L[1] * L[2]) > 0:
            lats.append(L)
    scn = []
    for i, L in enumerate(lats):
        nums = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 21, 25, 30, 37, 49, 60, 81, 100] + \
            [rng.randint(1, 260) for _ in range(12 if th else 5)]
        if abs(L[0] * L[3] - L[1] * L[2]) * 3 < 1:
            continue
        scn.append({"lat": L, "scale": [1.0, 0.1, 0.37, 2.5, 1e-3, 1e3][i % 6], "nums": nums})
    ev = c.replay("d_c07", scn)
    c.judge("C07Trace", ev, parts=core.NCPU)

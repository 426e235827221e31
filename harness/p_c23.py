"""C23: permittivity interpolation."""

import random

import core

TECHNIQUE = ("TLA+ model of the index path (endpoints, passivity, no zero: all states by TLC, exact integers); every state replayed into "
             "interpolate_permittivity and judged by the TLA+ trace specification")
NOTE = ("Every (solid, void, density) state of the model is replayed in several array layouts and dtypes; values compared with the exact "
        "rational result computed by TLC.")
ASSUMPTIONS = ["indices in steps of 0.1 and densities in steps of 0.1"]


def check(c):
    th = core.tier() == "thorough"
    ns, ks = ("{0, 1, 3, 7, 10, 15, 21, 36}", "{-2, 0, 1, 5, 12, 27, 40}") if th else ("{0, 3, 10, 15, 36}", "{-2, 0, 1, 12, 27}")
    g = c.model("C23", core.cfg(invariants=["Ends", "Passive", "NoZero", "Same", "Swap", "Emit"]), 
                defs={"Ns": ns, "Ks": ks})
    rows = sorted(g.json("ROW"))
    rng = random.Random(core.seed())
    rng.shuffle(rows)
    scn = []
    step = 40
    for i in range(0, len(rows), step):
        scn.append({"rows": rows[i:i + step], "mode": "vector"})
    special = [r for r in rows if r[0] * r[1] == 0 and r[2] * r[3] == 0 and r[1] >= 0 and r[3] >= 0]
    half = [r for r in rows if r[0] * r[1] == 0 and r[1] >= 0]
    for i in range(0, len(special), step):
        scn.append({"rows": special[i:i + step], "mode": "real"})
    for i in range(0, min(len(half), 4000 if th else 400), step):
        scn.append({"rows": half[i:i + step], "mode": "mixed"})
    for m in ("grid", "outer", "scalar"):
        for _ in range(100 if th else 20):
            scn.append({"rows": rng.sample(rows, 12), "mode": m})
    ev = c.replay("d_c23", scn, jobs=4)
    c.judge("C23Trace", ev)

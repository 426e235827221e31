"""C19: beam reorientation."""

import random

import core

TECHNIQUE = ("TLA+ model of rotations (proper, Euler form, direction: all angle triples over GF(p) by TLC); recorded matrices and fields "
             "judged by TLC against the exact rigid motion in fixed point")
NOTE = ("Rotation identities exact for all angles of GF(13/29); code judged for all triples of 11 angles (any quadrant, integers) and "
        "coordinate array shapes of rank 0 to 3, with affine field functions.")
ASSUMPTIONS = ["field functions affine in position"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C19", core.cfg(constants={"P": 29 if th else 13}, invariants=["Proper", "Euler", "Direction"]), workers=core.NCPU)
    g = c.model("C19Gen", core.cfg(invariants=["Emit"]),
                defs={"Angles": "0..10", "Shapes": "0..7", "Origins": "0..2"})
    scn = sorted(g.json("SCN"), key=str)
    random.Random(core.seed()).shuffle(scn)
    scn = scn[:6000 if th else 700]
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    scn += [{"polar": p, "az": 6, "pol": 6, "shape": 1, "origin": 1, "sid": len(scn) + i, "seed": 1} for i, p in enumerate((0, 6))]
    ev = c.replay("d_c19", scn, chunk_key=lambda s: (s["shape"], s["origin"]))
    c.judge("C19Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 6}), parts=core.NCPU)

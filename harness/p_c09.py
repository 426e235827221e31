"""C09: lattice, wavevector and coordinate geometry."""

import core

TECHNIQUE = ("TLA+ integer lattice geometry (duality, tiling, Brillouin grids) checked by TLC; values computed by fmmax for the "
             "enumerated lattices and grids validated as exact rationals by the TLA+ trace specification")
NOTE = ("Rational expected values evaluated by TLC for each coordinate; lattices are integer vectors times a scale, angles are "
        "Pythagorean. Covers batched lattices, all Brillouin grid sizes up to 64 (count) and skewed/negatively oriented cells.")
ASSUMPTIONS = ["float64 evaluation; agreement to 2e-5 of a unit"]


def check(c):
    th = core.tier() == "thorough"
    lats = "{<<1,0,0,1>>, <<2,0,0,3>>, <<3,1,-1,2>>, <<1,0,2,5>>, <<0,2,1,0>>, <<-3,2,4,1>>, <<5,0,0,1>>, <<4,-3,3,4>>, <<1,7,-2,3>>}"
    c.model("C09", core.cfg(invariants=["Dual", "Tiling", "BZ"]), workers=core.NCPU, defs={
        "Lats": lats, "Shapes": "{<<1,1>>, <<3,2>>, <<2,5>>}", "Cells": "{<<1,1>>, <<2,1>>, <<1,3>>}",
        "BGrids": "{<<1,1>>, <<4,7>>}"})
    g = c.model("C09", core.cfg(invariants=["Emit"]), defs={
        "Lats": lats, "Shapes": "{<<1,1>>, <<3,2>>, <<5,4>>}" if not th else "{<<1,1>>, <<3,2>>, <<2,5>>, <<7,7>>, <<1,4>>}",
        "Cells": "{<<1,1>>, <<2,3>>, <<3,1>>}", "BGrids": "{<<1,1>>, <<2,3>>, <<4,1>>}" if not th else "{<<1,1>>, <<2,3>>, <<5,1>>, <<3,4>>}"})
    scn = sorted(g.json("SCN"), key=str)
    if not th:
        scn = [s for i, s in enumerate(scn) if (i + i // 3 + i // 9 + core.seed()) % 3 == 0]
    counts = [[n, n % 7 + 1] for n in range(1, 65)] + [[n % 5 + 1, n] for n in range(1, 65)]
    for i, s in enumerate(scn):
        s["sid"] = i
        s["seed"] = core.seed()
        s["scale"] = [1.0, 0.37, 25.0][i % 3]
        s["counts"] = counts[i::len(scn)]
    ev = c.replay("d_c09", scn)
    c.judge("C09Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"S": 100000, "Slack": 1}))
    c.single("d_c09", "C09Trace", scn, 100 if th else 24, {"S": 100000, "Slack": 40})

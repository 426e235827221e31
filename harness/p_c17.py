"""C17: farfield."""

import core

TECHNIQUE = ("TLA+ model of unflattening as a placement map (TLC exhaustive over all order sets in a box and all small grids); index-coded "
             "arrays unflattened by fmmax compared element by element in TLC; angles, solid angles and integrals evaluated by TLC")
NOTE = ("Placement is decided exactly for every element of every recorded array (symmetric, shifted and asymmetric expansions, non-square grids, "
        "extra batch axes around the grid axes, negative axes). Solid angles judged at interior positions (edge cells are clipped by design).")
ASSUMPTIONS = ["edge positions and positions next to missing orders have clipped cells: their solid angle is not judged",
               "grid axes in increasing order (kx axis first)"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C17", core.cfg(constants={"MaxGrid": 3}, invariants=["OnceEach", "InRange", "Tight", "Affine"]),
            defs={"Box": "-1..1"}, workers=core.NCPU)
    scn = c.pick([("ord", ["sym5", "one", "line", "asym", "shift", "neg", "hex", "full"]),
                  ("grid", [[1, 1], [2, 1], [1, 3], [2, 3], [3, 2], [3, 3], [4, 2]]), ("layout", ["plain", "lead", "mid", "trail", "two"]),
                  ("num", [1, 2]), ("neg", [True, False]), ("up", [1, 2, 3])], 700 if th else 110)
    ev = c.replay("d_c17", scn, chunk_key=lambda s: (s["ord"], s["layout"]))
    c.judge("C17Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 400}), parts=core.NCPU)
    c.single("d_c17", "C17Trace", scn, 100 if th else 24, {"Tol": 20000})

"""C16: PML tensors."""

import random

import core

TECHNIQUE = ("TLA+ model of the border geometry (all small grids/widths by TLC); every grid replayed into apply_uniaxial_pml and all cells "
             "and components judged by TLC against the stretching formula in fixed point")
NOTE = "All grids up to the bound with all widths, including invalid ones, seven parameter sets, batches and jit."
ASSUMPTIONS = ["grid sizes up to 7 (quick) / 10 (thorough), widths up to 3 / 4; exponents in halves"]


def check(c):
    th = core.tier() == "thorough"
    n, w = (10, 4) if th else (7, 3)
    g = c.model("C16", core.cfg(constants={"MaxN": n, "MaxW": w}, invariants=["Mirror", "Range", "Nearest", "Ends", "Emit"]))
    scn = sorted(g.json("SCN"), key=str)
    scn += [{"nx": a, "ny": b, "wx": x, "wy": y} for a, b, x, y in ((20, 9, 6, 4), (9, 21, 4, 7), (2, 30, 1, 1), (30, 2, 1, 1), (11, 13, 5, 6))]
    random.Random(core.seed()).shuffle(scn)
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    ev = c.replay("d_c16", scn, chunk_key=lambda s: (s["nx"], s["ny"]))
    c.judge("C16Trace", ev, parts=core.NCPU)

"""C22: rejection of invalid, acceptance of valid arguments."""

import json
import random

import core

TECHNIQUE = ("TLA+ specification of the documented domains as predicates on argument shapes; TLC enumerates all cases around every boundary (and checks theorems about the predicates); cases "
             "replayed in the public functions, observed acceptance or rejection judged by the trace specification")
NOTE = ("24 contracts, about 15600 cases enumerated; cheap contracts are replayed completely, expensive ones (valid cases need eigensolves) sampled by seed; thorough replays all but the largest.")
ASSUMPTIONS = ["any exception counts as rejection", "shapes whose status the documentation leaves open (unit axes in place of amplitude or term axes) are not cases"]
ALL = ["axes", "compat", "lattice", "expansion", "bz", "minshape", "ifft", "eig", "tensor", "amps", "modes", "lens", "location", "dipole", "part", "truncation", "pml", "same",
       "incident", "incident0", "flat", "flux", "kt", "upsample"]
QUICK = {"minshape": 260, "eig": 160, "tensor": 160, "amps": 250, "modes": 160, "lens": 120, "location": 150, "dipole": 100, "same": 150, "incident": 200, "flux": 180, "kt": 180, "pml": 256}


def check(c):
    th = core.tier() == "thorough"
    g = c.model("C22", core.cfg(constants={"Emitting": True}, invariants=["OrderIrrelevant", "UnitAxesNeverHurt", "PairwiseSuffices", "SignIrrelevant", "Pigeonhole", "Monotone", "Total", "Emit"]),
                defs={"Contracts": "{" + ", ".join(f'"{x}"' for x in ALL) + "}"})
    by = {}
    for r in sorted(g.lines.get("SCN", [])):
        r = json.loads(r)
        by.setdefault(r["c"], []).append(r)
    rnd = random.Random(core.seed())
    scn = []
    for name in ALL:
        cases = by[name]
        num = QUICK.get(name, len(cases)) * (8 if th else 1)
        if len(cases) > num:
            cases = rnd.sample(cases, num)
        step = 400 if name in ("axes", "compat") else 6 if name in ("eig", "minshape", "tensor") else 20
        scn += [{"cases": cases[i:i + step]} for i in range(0, len(cases), step)]
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    c.notes["cases"] = {k: sum(len(s["cases"]) for s in scn if s["cases"][0]["c"] == k) for k in ALL}
    ev = c.replay("d_c22", scn)
    c.judge("C22Trace", ev, parts=core.NCPU)

"""C08: Fourier transforms and convolution matrices."""

import core

TECHNIQUE = ("TLA+ model of discrete Fourier analysis over GF(2521) (TLC, all grid points and orders); fmmax transforms of "
             "integer coefficient tables validated entry by entry against the TLA+ trace specification")
NOTE = ("Transform theorems model-checked exactly for ten expansions on all grids up to three above the minimum; the code is "
        "judged on the same grids, layouts and dtypes with random integer tables including out-of-band content.")
ASSUMPTIONS = ["arrays are synthesised and analysed by explicit sums of exponentials in numpy",
               "transform axes are adjacent and increasing"]


def check(c):
    th = core.tier() == "thorough"
    t = c.model("C08", core.cfg(
        constants={"P": 2521, "ExpIds": "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}",
                   "Extra": "{0, 1, 2, 3}" if th else "{0, 1, 3}"},
        invariants=["Orthogonal", "Separated", "Convolution"]),
        defs={"Layouts": "{<<(<<>>), (<<>>)>>}", "DTypes": '{"complex128"}'}, workers=core.NCPU)
    g = c.model("C08", core.cfg(
        constants={"P": 2521, "ExpIds": "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}", "Extra": "{0, 1, 2, 3}" if th else "{0, 1, 3}"},
        invariants=["Emit"]),
        defs={"Layouts": "{<<(<<>>), (<<>>)>>, <<(<<2>>), (<<>>)>>, <<(<<>>), (<<3>>)>>, <<(<<2>>), (<<2>>)>>, <<(<<2, 3>>), (<<>>)>>, <<(<<1, 2>>), (<<3, 1>>)>>}",
              "DTypes": '{"complex128", "float64", "complex64"}' if th else '{"complex128", "float64"}'})
    scn = sorted(g.json("SCN"), key=str)
    if not th:
        # Each grid with every layout; dtypes alternate.
        scn = [s for i, s in enumerate(scn) if (i + i // 7 + core.seed()) % 2 == 0]
    for i, s in enumerate(scn):
        s["sid"] = i
        s["seed"] = core.seed()
    ev = c.replay("d_c08", scn, chunk_key=lambda s: (str(s["e"]), s["nx"]))
    c.judge("C08Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 30 if th else 4}))
    c.single("d_c08", "C08Trace", scn, 100 if th else 24, {"Tol": 20000})

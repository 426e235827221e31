"""C01: the scattering matrix is a function of the layer list."""

import core

TECHNIQUE = "TLA+ model of the S-matrix algebra over GF(p) checked by TLC; TLC-generated operation histories replayed in fmmax and the recorded traces validated against the TLA+ trace specification"
NOTE = ("Exhaustive for the GF(p) design model (all stacks up to the bound, all operations); the code is bound by "
        "validating randomly generated histories over eleven kinds of layers. Trusts numpy's dense solver for the reference.")
ASSUMPTIONS = [
    "dense LU solution of the interface equations (numpy) as numerical realisation of the denotation",
    "layers compared through their eigenvalues, eigenvectors and omega-script-k matrices",
]


def check(c):
    thorough = core.tier() == "thorough"
    c.model("C01", core.cfg(
        constants={"P": 32749, "Layers": "{1, 2, 3}" if thorough else "{1, 2}", "Thick": "{1, 2}",
                   "MaxLen": 5 if thorough else 4, "OperandLen": 2},
        invariants=["Determined", "Reversal"]), workers=core.NCPU)
    import d_c01_names as n
    g = c.model("C01Gen", core.cfg(
        constants={"Layers": "{1, 2, 3}", "Thick": "{1, 2, 3}",
                   "Flavours": "{" + ", ".join(f'"{x}"' for x in n.FLAVOURS) + "}",
                   "ScanFlavours": "{" + ", ".join(f'"{x}"' for x in n.SCAN) + "}",
                   "Depth": 14 if thorough else 10, "MaxLen": 7},
        invariants=["NonEmpty"]),
        args=["-simulate", f"num={1200 if thorough else 150}", "-depth", "20", "-seed", str(core.seed())])
    scn = g.json("SCN")
    ev = c.replay("d_c01", scn, chunk_key=lambda s: s["flavour"])
    c.judge("C01Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 60}))
    c.single("d_c01", "C01Trace", scn, 60 if thorough else 16, {"Tol": 20000}, chunk_key=lambda s: s["flavour"])

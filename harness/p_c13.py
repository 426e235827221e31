"""C13: Poynting flux."""

import core
import p_c02
import p_c05

TECHNIQUE = ("TLA+ model of power flow as a bilinear form (decompositions model-checked over Gaussian integers); recorded fluxes of "
             "generated layers judged by the TLA+ trace specification, homogeneous layers against TLC-computed flux")
NOTE = ("Decomposition identities model-checked for all small mode tables; code judged per order, per column and per mode on generated "
        "layers of all kinds and formulations, and as exact values for homogeneous layers.")
ASSUMPTIONS = ["fields from fields_from_wave_amplitudes (decided by C05)"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C13", core.cfg(constants={"R": 1}, invariants=["SumAmp", "SumDir", "OneMode", "Scale"]), workers=core.NCPU, timeout=840)
    scn = p_c05.layers(c, 1200 if th else 190, exps=("e5", "e3", "e5b", "e1"))
    uni = p_c02.gen(c, 700 if th else 110, maxlen=1, ambients="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}")
    for i, s in enumerate(uni):
        s["sid"] = len(scn) + i
    ev = c.replay("d_c13", scn + uni, chunk_key=lambda s: (s.get("exp"), s.get("form"), s["sid"] % 3 if "stack" in s else 0))
    c.judge("C13Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 50}), parts=core.NCPU)
    c.single("d_c13", "C13Trace", scn, 100 if th else 24, {"Tol": 20000}, chunk_key=lambda s: (s.get("exp"), s.get("form")))

"""C04: interior amplitudes."""

import core
import p_c02

TECHNIQUE = ("TLA+ model of interior amplitudes (continuity and boundary values over GF(p), TLC); recorded amplitudes walked layer "
             "by layer through the TLA+ trace specification, homogeneous stacks against the exact TLA+ solution")
NOTE = ("Design exhaustively checked for all small stacks; code judged on generated patterned/anisotropic/magnetic/batched stacks "
        "(continuity, boundary values, dense reference) and homogeneous stacks (TLC-computed amplitudes).")
ASSUMPTIONS = ["tangential fields from fields_from_wave_amplitudes (decided separately by C05)", "numpy dense solver as reference"]

BATCHES = "{<<>>, <<3>>, <<2, 2>>}"
CLASSES = '{"iso", "isolossy", "uniform", "uniformlossy", "aniso", "anisolossy", "magnetic", "magneticlossy", "grating", "gyro", "mixed"}'


def scenarios(c, classes=CLASSES, exps='{"e5", "e3", "e5b", "e1", "e9"}', batches=BATCHES, cols="{1, 3}", sides="{1, 2, 3}",
              counts="{0, 1, 2, 3}", keep=1):
    g = c.model("StackGen", core.cfg(constants={"Classes": classes, "Exps": exps, "Cols": cols, "Sides": sides, "Counts": counts},
                                     invariants=["Emit"]), defs={"Batches": batches})
    scn = sorted(g.json("SCN"), key=str)
    import random
    random.Random(core.seed()).shuffle(scn)
    scn = scn[:keep]
    for i, s in enumerate(scn):
        s["sid"] = i
        s["seed"] = core.seed()
    return scn


def check(c):
    th = core.tier() == "thorough"
    c.model("C04", core.cfg(spec="GrowSpec", constants={"P": 32749, "Layers": "{1, 2, 3}" if th else "{1, 2}", "Thick": "{1, 2}",
                                       "MaxLen": 4, "OperandLen": 1}, invariants=["Ends", "Continuous"]), workers=core.NCPU)
    scn = scenarios(c, counts="{1, 2, 3}", keep=900 if th else 130)
    uni = p_c02.gen(c, 600 if th else 90, maxlen=5)
    for i, s in enumerate(uni):
        s["sid"] = len(scn) + i
    ev = c.replay("d_c04", scn + uni, chunk_key=lambda s: (s.get("exp"), str(s.get("batch")), s["sid"] % 3 if "stack" in s else s["nl"] // 2))
    c.judge("C04Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 60}), parts=core.NCPU)

"""C14: internal sources."""

import core

TECHNIQUE = ("TLA+ model of a source inside a stack (emission system over GF(p), TLC: jumps exactly at the source, no incoming waves); "
             "recorded amplitudes walked layer by layer through the TLA+ trace specification, jumps and source coefficients evaluated by TLC in fixed point")
NOTE = ("Design checked for all small stacks and all source positions. Continuity, outgoing condition and jump determine the "
        "amplitudes uniquely, so no reference solver is involved. Materials, formulations and batch shapes (equal and different "
        "rank before, after and in the current) enumerated by TLC.")
ASSUMPTIONS = ["tangential fields from fields_from_wave_amplitudes (decided by C05)",
               "permittivity of the normal current is that of the layer before the source (as implemented)",
               "sources with an emission matrix of condition above 1e7 or fields above 60 are not judged"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C14", core.cfg(spec="GrowSpec", constants={"P": 32749, "Layers": "{1, 2, 3}" if th else "{1, 2}", "Thick": "{1, 2}",
                                                        "MaxLen": 4, "OperandLen": 1}, invariants=["Jumps", "Outgoing"]), workers=core.NCPU)
    kinds = ["iso", "isolossy", "isofine", "uniform", "uniformlossy", "constant", "aniso", "gyro", "unianiso", "magnetic", "unimagnetic"]
    bs = [[], [3], [2, 1]]
    scn = c.pick([("bk", kinds), ("ak", kinds), ("form", ["fft", "pol", "jones_direct"]), ("exp", ["e5", "e3", "e5b", "e1", "e9"]),
                  ("bb", bs), ("ab", bs), ("jb", bs), ("cols", [1, 2])], 900 if th else 130)
    scn += [{"nsrc": n, "batch": b, "exp": e} for n in (1, 2, 5) for b in ([], [3], [2, 2], [1, 4]) for e in ("e5", "e3", "e9", "e1")]
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    ev = c.replay("d_c14", scn, chunk_key=lambda s: (s.get("exp"), str(s.get("bb")), str(s.get("ab"))))
    c.judge("C14Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 80}), parts=core.NCPU)
    c.single("d_c14", "C14Trace", scn, 100 if th else 16, {"Tol": 20000}, keep=lambda s: "nsrc" not in s)

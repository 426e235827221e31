"""C15: amplitudes recovered from fields."""

import core

TECHNIQUE = ("TLA+ model of the Bloch decomposition on a supercell (exact over GF(577) roots of unity, TLC exhaustive); amplitudes recovered "
             "by fmmax validated by TLC, which computes the Fourier/Bloch coefficients of the recorded supercell fields itself")
NOTE = ("Completeness and separation proved exhaustively for all supercells with N n dividing 288. Code judged for plain round trips "
        "(batched, several fields, several grids) and for Brillouin grids in all axis layouts, including non-square ones.")
ASSUMPTIONS = ["field conversion matrix of condition above 1e6 not judged", "wavevectors of the Brillouin grid (C09), fields of amplitudes (C05)"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C15", core.cfg(constants={"MaxN": 4 if th else 3, "MaxPts": 4}, invariants=["Complete", "Separate"]), workers=core.NCPU)
    kinds = ["iso", "isolossy", "uniform", "uniformlossy", "constant", "aniso", "unianiso", "magnetic", "unimagnetic"]
    a = c.pick([("mode", ["round"]), ("kind", kinds), ("exp", ["e5", "e3", "e5b", "e1", "e9"]), ("batch", [[], [3], [2, 1], [2, 2]]),
                ("kb", [True, False]), ("num", [1, 2, 3]), ("extra", [1, 2, 3, 4]), ("form", [0, 1])], 600 if th else 70)
    b = c.pick([("mode", ["bz"]), ("kind", kinds[:3] + kinds[5:8]), ("cell", ["c33", "c31", "c13", "c53", "c11", "c42"]),
                ("grid", [[1, 1], [2, 1], [1, 2], [1, 3], [2, 3], [3, 2], [4, 1], [2, 2], [3, 3]]),
                ("layout", ["plain", "swapped", "lead", "mid", "trail"]), ("lead", ["none", "ones", "full"]), ("neg", [True, False]),
                ("num", [1, 2])], 600 if th else 110)
    scn = a + b
    for i, s in enumerate(scn):
        s["sid"] = i
    ev = c.replay("d_c15", scn, chunk_key=lambda s: (s.get("exp"), s.get("cell"), str(s.get("batch")), str(s.get("grid"))))
    c.judge("C15Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 80}), parts=core.NCPU)

"""C12: real-space sampling."""

import core

TECHNIQUE = ("TLA+ model of plane sampling (tiled inverse transform times Bloch phase, exact over GF(577)) and of the assembled z axis "
             "(layers appended one by one), TLC exhaustive; recorded real-space values of all sampling functions validated by TLC, which evaluates the plane-wave sums itself")
NOTE = ("All six components, every sampling entry point (grid, coordinates, one layer, stack, automatic grid), TLC-sampled grid shapes, "
        "cells, z counts (0, 1, several), batches, columns and lattices; values to about 1e-4.")
ASSUMPTIONS = ["Fourier fields of amplitudes are those of fields_from_wave_amplitudes (C05)"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C12", core.cfg(constants={"MaxPts": 12 if th else 8, "MaxCells": 3, "Depths": "{1, 2, 5}", "Nums": "{0, 1, 2, 3, 4}", "MaxLayers": 4 if th else 3},
                            invariants=["Plane", "Bloch", "Ordered", "Counted", "Edges"]), workers=core.NCPU)
    scn = c.pick([("mode", ["grid", "coords", "layer", "layerc", "stack", "stackc", "auto"]), ("kind", ["iso", "isolossy", "uniform", "aniso", "magnetic", "unianiso"]),
                  ("exp", ["e5", "e3", "e5b", "e9", "e1"]), ("batch", [[], [3], [2, 1], [2, 2]]), ("kb", [True, False]), ("num", [1, 2, 3]),
                  ("extra", [[0, 0], [1, 3], [4, 0], [2, 5]]), ("cells", [[1, 1], [2, 1], [1, 3], [3, 2]]), ("csh", [[1], [4], [2, 3], [2, 1, 2]]),
                  ("znum", [[1, 3, 2], [2, 1], [0, 3, 1], [3, 0, 2], [4, 4], [1, 1, 1], [2, 5]])], 1100 if th else 170)
    ev = c.replay("d_c12", scn, chunk_key=lambda s: (s["exp"], str(s["batch"]), s["num"]))
    c.judge("C12Trace", ev, parts=core.NCPU)

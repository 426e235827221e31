"""C03: energy ledger."""

import core
import p_c04

TECHNIQUE = ("TLA+ ledger model of planar optics in fixed point (TLC: flux conserved/decreasing); recorded flux at planes of real "
             "stacks walked through the TLA+ ledger trace specification")
NOTE = ("Design checked exhaustively over small media sets; code judged at three planes per layer and at both ends of generated "
        "patterned, anisotropic, gyrotropic, magnetic, lossy and batched stacks. Vector formulations: gratings only (for other "
        "patterns they conserve energy only in the limit of many terms).")
ASSUMPTIONS = ["lossless materials are hermitian tensors", "balance of in and out power uses propagating incident orders"]


def check(c):
    th = core.tier() == "thorough"
    for k in (0, 700000, 1900000):
        c.model("C03", core.cfg(constants={"Media": "{1, 2, 3, 4, 5, 6}", "MaxLayers": 5 if th else 3, "W": 2000000, "K": k},
                                properties=["Ledger"], constraint="Bound"), workers=core.NCPU)
    scn = p_c04.scenarios(c, counts="{0, 1, 2, 3}", keep=1200 if th else 220)
    ev = c.replay("d_c03", scn, chunk_key=lambda s: (s.get("exp"), str(s.get("batch")), s["nl"] // 2))
    c.judge("C03Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 100}))

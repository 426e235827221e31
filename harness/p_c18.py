"""C18: tangent vector fields."""

import json
import random

import core

TECHNIQUE = ("TLA+ model of one-dimensional structures under lattice and pattern operations (TLC checks tangency, orthogonality to the gradient and level sets for every "
             "operation sequence); TLC-generated lattices, orientations and operation sequences run through every scheme, direction and covariance evaluated by TLC")
NOTE = ("All eight schemes: finite, bounded, unit where normalized; one-dimensional structures of any orientation on any lattice (real, lossy, metallic, multi-material); "
        "rescaling, contrast, offset, batch, rotations, mirrors, exchange and reversal of axes; supercells within a mean tolerance.")
ASSUMPTIONS = ["supercell repetition is approximate (the optimisation grid is tied to the expansion): mean deviation bounded",
               "reversing one axis only on orthogonal lattices (forward-difference smoothness is exactly symmetric there)",
               "the field is observed through t t^H, the only way layer solutions use it"]
SCHEMES = ["pol", "normal", "jones", "jones_direct", "pol_fourier", "normal_fourier", "jones_fourier", "jones_direct_fourier"]
STARTS = ('{<< << <<2, 0>>, <<0, 2>> >>, <<1, 0>> >>, << << <<3, 1>>, <<-1, 2>> >>, <<0, 1>> >>, << << <<4, 0>>, <<1, 3>> >>, <<1, 1>> >>, '
          '<< << <<1, 3>>, <<2, -1>> >>, <<1, -1>> >>, << << <<5, 1>>, <<0, 2>> >>, <<2, 1>> >>}')


def check(c):
    th = core.tier() == "thorough"
    k = 6 if th else 1
    c.model("C18", core.cfg(constants={"N": 4, "MaxOps": 5 if th else 4, "Emitting": False}, invariants=["Tangent", "Orthogonal", "NonZero", "LevelSet"]),
            defs={"Starts": STARTS}, workers=core.NCPU)
    g = c.model("C18", core.cfg(constants={"N": 4, "MaxOps": 4, "Emitting": True}, invariants=["Emit"]), defs={"Starts": STARTS},
                args=["-simulate", f"num={150 * k}", "-depth", "6", "-seed", str(core.seed())])
    rnd = random.Random(core.seed())
    scn, seen = [], set()
    for r in g.lines.get("SCN", []):
        r = json.loads(r)
        if r["n"][0] * r["n"][0] + r["n"][1] * r["n"][1] <= 5 and json.dumps(r) not in seen:
            seen.add(json.dumps(r))
            scn.append(dict(r, mode="line", scheme=rnd.choice(SCHEMES), m=rnd.choice([6, 8]), profile=rnd.choice(["step", "smooth", "lossy", "three"]),
                            other=rnd.choice(["singleton", "full"])))
    scn = scn[:40 * k]
    ops = ["scale", "contrast", "offset", "rot", "mirror", "swap", "half", "batch", "negu", "negv", "flipx"]
    same = c.pick([("scheme", SCHEMES), ("lat", ["square", "rect", "hex", "oblique", "sheared", "left"]), ("shape", [[12, 10], [9, 9], [8, 14]]),
                   ("kind", ["real", "real", "lossy", "centred", "density", "uniform"]), ("exp", [5, 9, 13]), ("o1", ops), ("o2", ops + ["none"]), ("o3", ops + ["none"])], 64 * k)
    for s in same:
        s["ops"], s["mode"] = [o for o in (s.pop("o1"), s.pop("o2"), s.pop("o3")) if o != "none"], "same"
    sup = c.pick([("scheme", SCHEMES if th else ["pol", "jones_direct", "pol_fourier", "jones_direct_fourier"]), ("lat", ["square", "oblique"]), ("reps", [[2, 1], [1, 2]])], 12 if th else 3)
    for s in sup:
        s["mode"] = "super"
    scn = sup + scn + same
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    ev = c.replay("d_c18", scn)
    c.judge("C18Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 60, "SuperTol": 800}), parts=core.NCPU)

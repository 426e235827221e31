"""C02: exact multilayer solution."""

import core

TECHNIQUE = ("TLA+ model of channel optics (exact over GF(p) by TLC; fixed-point complex arithmetic for the trace), recorded "
             "S-matrices of TLC-generated homogeneous stacks validated channel by channel against the TLA+ solution")
NOTE = ("TLC itself evaluates dispersion, impedances, phases and the multilayer solution from the material parameters; agreement "
        "to about 1e-4. Theorems (reciprocity, splitting) model-checked exactly over GF(p) for all small stacks.")
ASSUMPTIONS = ["channels with |q| < 0.35 or |Im q| d > 2.2 in a layer are not judged (fixed-point accuracy)",
               "biaxial media are judged for wavevectors along an optic axis, other directions only for uniaxial media",
               "gyrotropic media are judged at normal incidence (circular polarizations)"]


def gen(c, num, module="C02Gen", maxlen=5, ambients="{1, 2, 3, 4, 6, 12, 14}", media="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}",
        kids="{1, 2, 3, 4, 5}", eids="{1, 2, 3, 4, 5}", tids="{1, 2, 3, 4, 5}"):
    g = c.model(module, core.cfg(constants={
        "Ambients": ambients, "Media": media, "ThickIds": tids, "KIds": kids, "WIds": "{1, 2, 3}",
        "ExpIds": eids, "AxIds": "{1, 2, 3, 4, 5}", "MaxLen": maxlen}, invariants=["Typed"]),
        args=["-simulate", f"num={num}", "-depth", "30", "-seed", str(core.seed())])
    scn = g.json("SCN")
    for i, s in enumerate(scn):
        s["sid"] = i
        s["seed"] = core.seed()
        s["variant"] = i
    return scn


def check(c):
    th = core.tier() == "thorough"
    c.model("C02", core.cfg(constants={"P": 32749, "Layers": "{1, 2, 3}", "Thick": "{0, 1, 2}", "MaxLen": 5 if th else 4},
                            invariants=["Reciprocity", "Split", "Absent", "Matched"]), workers=core.NCPU)
    c.model("FixTest", core.cfg(invariants=["MulDiv", "Root", "Exp"]), workers=core.NCPU,
            defs={"V": "{0, 1000000, -333333, 2718281, -707107}"})
    scn = gen(c, 2500 if th else 260)
    # Gyrotropic layers at normal incidence: circular polarizations.
    more = gen(c, 900 if th else 90, ambients="{1, 2, 3, 4, 6, 15, 16, 17}", media="{1, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 17, 18}", kids="{1}")
    more = [s for s in more if any(m[0] >= 15 for m in s["stack"])]
    for s in more:
        s["sid"] += len(scn)
    scn += more
    ev = c.replay("d_c02", scn)
    c.notes["channels_judged"] = sum(e["ev"] == "chan" for e in ev)
    c.notes["circular_channels_judged"] = sum(e["ev"] == "circ" for e in ev)
    c.judge("C02Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 250}), parts=core.NCPU)
    c.single("d_c02", "C02Trace", scn, 300 if th else 60, {"Tol": 3000})

"""C05: Maxwell's equations."""

import random

import core
import p_c02

TECHNIQUE = ("TLA+ statement of Maxwell's curl equations (operator identity model-checked over GF(p)); TLC evaluates the six "
             "equations in fixed point on recorded fields of patterned layers, and exact plane waves of homogeneous layers")
NOTE = ("Fields of generated layers (isotropic/anisotropic/gyrotropic/magnetic, lossy, metallic; FFT and vector formulations) judged "
        "order by order by TLC; homogeneous layers against the exact TLA+ solution. Tolerance about 1e-3 of the field scale.")
ASSUMPTIONS = ["layer operators (Laurent / inverse rule with the returned tangent field) from an independent numpy implementation",
               "a real propagation constant may be returned with either sign (documented)"]


def layers(c, keep, kinds=None, forms=None, exps=("e5", "e3", "e5b", "e1"), variants=3):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    g = c.model("LayerGen", core.cfg(constants={
        "Kinds": q(kinds or mats_kinds()), "Forms": q(forms or mats_forms()), "Exps": q(exps),
        "Variants": "{%s}" % ", ".join(map(str, range(variants)))}, invariants=["Emit"]))
    scn = sorted(g.json("SCN"), key=str)
    random.Random(core.seed()).shuffle(scn)
    # Patterned FFT and vector scenarios in equal parts.
    a = [s for s in scn if s["form"] == "fft"]
    b = [s for s in scn if s["form"] != "fft"]
    scn = a[:keep // 2] + b[:keep - min(len(a), keep // 2)]
    for i, s in enumerate(scn):
        s["sid"] = i
        s["seed"] = core.seed()
    return scn


def mats_kinds():
    return ["iso", "isolossy", "isometal", "isofine", "uniform", "uniformlossy", "constant", "aniso", "anisolossy", "gyro", "unianiso",
            "magnetic", "magneticlossy", "unimagnetic", "constgen"]


def mats_forms():
    return ["fft", "pol", "normal", "jones", "jones_direct", "jones_direct_fourier", "pol_fourier", "normal_fourier", "jones_fourier"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C05", core.cfg(constants={"P": 32749, "Vals": "{1, 2, 7}" if th else "{1, 3}", "Ks": "{1, 4}"},
                            invariants=["Equivalent", "Faraday"]), workers=core.NCPU)
    scn = layers(c, 1200 if th else 200)
    uni = p_c02.gen(c, 700 if th else 110, maxlen=1, ambients="{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}")
    for i, s in enumerate(uni):
        s["sid"] = len(scn) + i
    ev = c.replay("d_c05", scn + uni, chunk_key=lambda s: (s.get("exp"), s.get("form"), s["sid"] % 3 if "stack" in s else 0))
    c.notes["equations_evaluated"] = 6 * sum(e["ev"] == "curl" for e in ev)
    c.judge("C05Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 1200}), parts=core.NCPU)
    c.single("d_c05", "C05Trace", scn, 100 if th else 24, {"Tol": 20000}, chunk_key=lambda s: (s.get("exp"), s.get("form")))

"""C10: equivalent descriptions."""

import json
import random

import core

TECHNIQUE = ("TLA+ rewriting system of layer descriptions (API, layout, formulation or callable, source): TLC proves that rewriting preserves the denoted "
             "discrete problem and connects all descriptions of it; descriptions solved by fmmax are compared by TLC within each denotation, and layer matrix entries against Fourier sums evaluated by TLC")
NOTE = ("All admissible descriptions of seven kinds of material (several hundred) are enumerated by TLC; each scenario solves a TLC-chosen sample of one "
        "equivalence family and compares operator (modes), layer matrices and scattering in a stack.")
ASSUMPTIONS = ["for two-dimensional patterns the isotropic and the anisotropic entry points use different vector factorizations and agree only for FFT"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C10", core.cfg(invariants=["SameProblem"], postcondition="Complete"), workers=core.NCPU)
    g = c.model("C10Gen", core.cfg(invariants=["Emit"]))
    fam = {}
    for r in g.lines.get("SCN", []):
        r = json.loads(r)
        fam.setdefault((r["kind"], json.dumps(r["den"])), []).append(r["desc"])
    rnd = random.Random(core.seed())
    scn, sid = [], 0
    for (kind, den), ds in sorted(fam.items()):
        ds.sort(key=lambda d: json.dumps(d, sort_keys=True))
        reps = {"hom_iso": 8, "hom_tensor": 6, "hom_gen": 6, "grating": 8, "pat_iso": 2, "pat_tensor": 2, "pat_gen": 2}[kind]
        for r in range(reps * (6 if th else 1)):
            pick = rnd.sample(ds, min(len(ds), 7))
            exp = rnd.choice(["e5", "e3", "e7"])
            if exp != "e3":
                pick = [d for d in pick if d["lay"] != "line"]
            if len(pick) < 2:
                continue
            scn.append({"sid": sid, "seed": core.seed(), "kind": kind, "descs": pick, "exp": exp, "loss": rnd.choice([0, 0, 1])})
            sid += 1
    ev = c.replay("d_c10", scn, chunk_key=lambda s: (s["sid"] % core.NCPU,))
    c.judge("C10Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 60}), parts=core.NCPU)
    c.single("d_c10", "C10Trace", scn, 60 if th else 16, {"Tol": 20000})

"""C21: pytrees and compiled functions."""

import json
import random

import core

TECHNIQUE = ("TLA+ model of a compilation cache keyed by static arguments (TLC checks every call history with arbitrary hash functions); TLC-generated call histories replayed "
             "through jax.jit with the trace specification tracking the cache, results compared with uncompiled calls; flatten/unflatten observations judged field by field")
NOTE = ("Call histories over expansions that differ in sign, order or axes, formulations, shapes and values for seven functions; every registered class through flatten, map, jit and "
        "scan; pairwise equality and hash of tree structures; ten library functions compiled against uncompiled.")
ASSUMPTIONS = ["layer solutions compared through quantities independent of the eigenvector choice"]


def check(c):
    th = core.tier() == "thorough"
    k = 6 if th else 1
    c.model("C21", core.cfg(constants={"MaxCalls": 4 if th else 3, "Emitting": False}, invariants=["SameAsPlain", "CompilesOnce", "CacheKeys"]),
            defs={"Expansions": '{"a", "b", "c"}', "Forms": '{"fft", "pol"}', "Sigs": '{"p"}', "Values": "{1, 2}"}, workers=core.NCPU)
    g = c.model("C21", core.cfg(constants={"MaxCalls": 6, "Emitting": True}, invariants=["Emit"]),
                defs={"Expansions": '{"a", "b", "c", "d", "e", "f", "g"}', "Forms": '{"fft", "pol"}', "Sigs": '{"p", "q"}', "Values": "{1, 2}"},
                args=["-simulate", f"num={24 * k}", "-depth", "8", "-seed", str(core.seed())])
    rnd = random.Random(core.seed())
    scn = []
    fns = ["fft", "conv", "kt", "unflatten", "delta", "fft", "conv", "layer", "kt", "vec"]
    for i, r in enumerate(g.lines.get("SCN", [])[:24 * k]):
        h = json.loads(r)["hist"]
        fn = fns[i % len(fns)]
        if fn in ("layer", "vec"):  # expensive to compile: short histories over few keys
            for x in h:
                x["exp"], x["sig"] = {"b": "a", "c": "d", "e": "e", "d": "d", "g": "f"}.get(x["exp"], x["exp"]), "p"
            h = h[:4]
        h = h + [rnd.choice(h)]
        scn.append({"mode": "history", "fn": fn, "hist": h})
    scn += [{"mode": "trees", "how": x} for x in ("flatten", "map", "jit", "scan")] + [{"mode": "keys"}]
    forms = ["fft", "pol", "jones", "normal", "jones_direct", "pol_fourier", "jones_direct_fourier", "normal_fourier", "jones_fourier"]
    groups = [["iso", "gen"], ["s", "scan", "beam"], ["fields", "pml"], ["flux", "interp"], ["source"]]
    for i in range(5 * (9 if th else 1)):
        scn.append({"mode": "jit", "names": groups[i % 5], "form": forms[(i * 2 + i // 9) % 9] if i % 5 < 2 else "fft"})
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    scn.sort(key=lambda s: s["mode"] == "history")
    ev = c.replay("d_c21", scn)
    c.judge("C21Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 5}), parts=core.NCPU)

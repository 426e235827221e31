"""C11: symmetries."""

import core

TECHNIQUE = ("TLA+ model of symmetry operations acting on lattice, pattern and channels (exact covariant law over GF(577), TLC checks that relabelling laws compose "
             "for every sequence of operations); TLC-sampled operation sequences applied to real structures, the relabelled scattering computed by TLC from the same laws")
NOTE = ("Sequences of up to three operations (rescale, translate, rotate by rational angles, mirror, exchange, negate or shear lattice vectors, supercell, reverse, split) "
        "on stacks of isotropic, tensor and magnetic layers; all S-matrix entries compared; E/H duality separately.")
ASSUMPTIONS = ["FFT formulation for translations, shears, oblique rotations and supercells (vector formulations discretize the tangent field on a fixed grid)",
               "no mirror operations for the Jones formulations (their complex tangent field has a fixed helicity)"]
OPS = ["scale", "shift", "rot", "rot90", "mirror", "swap", "negu", "negv", "shear", "reverse", "split"]


def check(c):
    th = core.tier() == "thorough"
    names = '{"shift", "swap", "negu", "negv", "mirror", "reverse", "shear", "rot"}'
    c.model("C11", core.cfg(constants={"N": 4, "MaxOps": 3 if th else 2}, invariants=["Relabelled", "Flagged"]),
            defs={"Orders": "<< <<0, 0>>, <<1, 0>>, <<0, -1>> >>", "OpNames": names}, workers=core.NCPU)
    kinds = [["iso"], ["tensor"], ["gen"], ["iso", "uniform", "iso"], ["tensor", "iso"], ["uniform", "gen"], ["iso", "tensor"]]
    com = [("kinds", kinds), ("exp", ["e5", "e4", "e3"]), ("shape", [[8, 8], [12, 6], [7, 9]])]
    k = 5 if th else 1
    scn = c.pick(com + [("o1", OPS), ("o2", OPS + ["none"]), ("o3", OPS + ["none", "super"])], 90 * k)
    for s in scn:
        s["ops"], s["form"] = [o for o in (s.pop("o1"), s.pop("o2"), s.pop("o3")) if o != "none"], "fft"
    vec = c.pick([("kinds", [["iso"], ["iso", "uniform", "iso"]])] + com[1:] + [("form", ["pol", "normal", "jones", "jones_direct", "pol_fourier", "jones_direct_fourier"]),
                  ("o1", ["scale", "rot90", "mirror", "swap", "reverse", "split"]), ("o2", ["none", "rot90", "mirror", "swap", "scale"])], 30 * k)
    for s in vec:
        s["ops"] = [o for o in (s.pop("o1"), s.pop("o2")) if o != "none"]
        if "jones" in s["form"]:
            s["ops"] = ["swap" if o == "mirror" else o for o in s["ops"]]
    dual = c.pick(com, 12 * k)
    for s in dual:
        s.update(dual=True, form="fft")
    vortex = [{"kinds": ["tensor"], "exp": "e5", "shape": [9, 8], "form": f, "ops": ["scale"], "finding": "vortex"} for f in ("pol", "normal")]
    ani = c.pick([("kinds", [["tensor"], ["gen"], ["tensor", "uniform"]]), ("exp", ["e5", "e4"]), ("shape", [[8, 8]]), ("form", ["jones", "jones_direct", "jones_direct_fourier"]),
                  ("o1", ["scale", "rot90", "swap", "reverse", "split"]), ("o2", ["none", "rot90", "swap"])], 10 * k)
    for s in ani:
        s["ops"] = [o for o in (s.pop("o1"), s.pop("o2")) if o != "none"]
    scn = scn + vec + dual + ani + vortex
    for i, s in enumerate(scn):
        s["sid"], s["seed"] = i, core.seed()
    ev = c.replay("d_c11", scn, chunk_key=lambda s: (s["exp"], str(s["shape"]), len(s["kinds"]), s["form"]))
    c.judge("C11Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 150}), parts=core.NCPU)

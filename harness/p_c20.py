"""C20: gradients."""

import core

TECHNIQUE = ("TLA+ model of eigendecomposition derivatives with dual numbers over GF(5) (exhaustive over 2x2 matrices: perturbation formula, reverse rule, gauge invariance); "
             "recorded jax gradients judged by TLC with the same formulas in fixed point, solver gradients against extrapolated differences")
NOTE = ("eig gradients for single, batched and differently scaled matrices, degenerate eigenvalues and explicit broadening; gradients of scattering, mode, field and flux quantities "
        "with respect to permittivity, thickness, wavelength, wavevector and lattice; finite and correct for uniform patterned and symmetric layers.")
ASSUMPTIONS = ["finite differences with step 1e-3 and one Richardson step; tolerance includes their own spread",
               "for vector formulations only changes of contrast are differentiated (the tangent field is documented to be independent of it)"]


def check(c):
    th = core.tier() == "thorough"
    k = 6 if th else 1
    c.model("C20", core.cfg(constants={"P": 5, "MaxSteps": 2 if th else 1}, invariants=["Perturbed", "Adjoint", "Invariant"]),
            defs={"Scales": "{<<1, 1>>, <<2, 3>>}" if th else "{<<2, 3>>}"}, workers=core.NCPU)
    eig = c.pick([("n", [2, 3, 4]), ("scales", ["one", "pair", "wide", "narrow", "tiny"]), ("degenerate", [False, False, True]), ("eps", ["default", "default", "broad"]), ("outer", [False, True])], 48 * k)
    for s in eig:
        s["mode"] = "eig"
        if s["degenerate"]:
            s["eps"], s["n"] = "default", max(3, s["n"])
    sol = c.pick([("layer", ["iso", "tensor", "general"]), ("structure", ["pattern", "uniform_patterned", "symmetric"]), ("output", ["s", "modes", "flux", "fields"]),
                  ("form", ["fft", "fft", "pol", "jones_direct", "pol_fourier", "normal", "jones_direct_fourier"]), ("batch", [0, 0, 2])], 24 * k)
    sol += [{"layer": "iso", "structure": "uniform_patterned", "output": o, "form": f, "batch": 0, "seed": core.seed()} for o, f in (("s", "pol_fourier"), ("modes", "jones_direct"))]
    for s in sol:
        s["mode"], s["params"] = "solver", ["eps", "t", "wl", "k", "uv"]
        if s["structure"] == "uniform_patterned" and s["layer"] != "iso":
            s["form"] = "fft"
        elif s["structure"] == "symmetric" and s["layer"] != "iso" and s["form"] != "fft" and "jones" not in s["form"]:
            s["form"] = "jones_direct"  # see the finding "vortex" in KNOWN_FINDINGS.txt
        if s["structure"] == "symmetric" and s["form"] != "fft":
            s["params"] = ["eps", "t", "wl", "k"]  # the normalization of the tangent field has a kink for symmetric patterns
    scn = eig + sol
    for i, s in enumerate(scn):
        s["sid"] = i
    ev = c.replay("d_c20", scn, chunk_key=lambda s: (s["mode"], s.get("n", 0)) if s["mode"] == "eig" else (s["sid"],))
    c.judge("C20Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 300, "FdTol": 100}), parts=core.NCPU)

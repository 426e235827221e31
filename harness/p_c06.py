"""C06: batching."""

import core

TECHNIQUE = ("TLA+ model of broadcasting as provenance of batch elements (every order of combining inputs uses exactly the projected input "
             "elements; TLC exhaustive over shapes and orders); every public operation run batched and singly, TLC matching each batch index to the single call its projection names")
NOTE = ("22 operations (three eigensolves in all formulations, scattering matrices and their algebra, interior amplitudes, propagation, fields, grids, 3D, "
        "fluxes, sources, field recovery, tangent fields, geometry, Fourier, PML, eig) with TLC-sampled independent batch shapes of wavelength, wavevector, "
        "lattice, permittivity, thickness and amplitudes, and amplitude columns treated as a batch axis.")
ASSUMPTIONS = ["quantities that depend on the arbitrary choice of eigenvectors are compared through gauge-independent combinations",
               "permittivity and permeability components share one shape (the library rejects others)"]

OPS = ["eig_iso", "eig_aniso", "eig_gen", "smat", "smat_ops", "interior", "propagate", "fields", "conversion", "flux", "grid", "coords", "3d",
       "source", "coefs", "recover", "tangent", "basis", "fourier", "pml", "eig"]
CODES = ["none", "full", "tail", "lead1", "last1", "ones"]
FORMS = ["fft", "pol", "normal", "jones", "jones_direct", "jones_direct_fourier", "pol_fourier", "normal_fourier", "jones_fourier"]


def check(c):
    th = core.tier() == "thorough"
    c.model("C06", core.cfg(constants={"NIn": 4 if th else 3, "Dims": "{1, 2, 3}" if not th else "{1, 2}", "MaxRank": 2}, invariants=["ShapeIsBroadcast", "ElementIsSingle"]),
            workers=core.NCPU)
    scn = c.pick([("op", OPS), ("exp", ["e5", "e3"]), ("base", [[2], [3], [2, 3], [3, 2], [2, 1, 2], [1, 2]]),
                  ("wl", CODES), ("k", CODES), ("lat", CODES), ("eps", CODES), ("th", CODES), ("amp", CODES),
                  ("cols", [1, 2, 3]), ("form", FORMS), ("uni", [True, False, False])], 1500 if th else 170)
    heavy = {"tangent", "eig_aniso", "eig_gen", "eig_iso", "interior", "source", "smat", "smat_ops"}
    for s in scn:
        if s["op"] not in ("tangent", "eig_aniso", "eig_gen", "eig_iso"):
            s["form"] = "fft"  # the formulations are the business of the eigensolves
        if s["op"] in heavy and not th:
            s["exp"] = "e3"
    ev = c.replay("d_c06", scn, chunk_key=lambda s: (s["op"], s["exp"]))
    c.judge("C06Trace", ev, core.cfg(spec="TraceSpec", postcondition="TraceDone", constants={"Tol": 60}), parts=core.NCPU)

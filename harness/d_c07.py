import jax.numpy as jnp
import numpy as np

from fmmax import basis


def run(s):
    L, sc = s["lat"], s["scale"]
    lv = basis.LatticeVectors(u=jnp.array([L[0], L[1]], dtype=float) * sc, v=jnp.array([L[2], L[3]], dtype=float) * sc)
    for num in s["nums"]:
        for trunc in ("circular", "parallelogramic"):
            e = basis.generate_expansion(
                primitive_lattice_vectors=lv, approximate_num_terms=num,
                truncation=basis.Truncation(trunc))
            g = np.asarray(e.basis_coefficients)
            ok = bool(np.issubdtype(g.dtype, np.integer))
            yield {"ev": "exp", "lat": L, "num": num, "trunc": trunc, "isint": ok,
                   "g": [[int(a), int(b)] for a, b in np.rint(g).astype(int)], "nt": int(e.num_terms)}

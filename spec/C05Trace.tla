------------------------------- MODULE C05Trace -------------------------------
(* Recorded fields against Maxwell's equations, evaluated here in fixed point.  *)
EXTENDS Stateless, Planar
CONSTANT Tol

Small(z) == AbsF(z[1]) <= Tol /\ AbsF(z[2]) <= Tol
RECURSIVE DotC(_, _, _)
DotC(r, v, n) == IF n = 0 THEN CZero ELSE CAdd(CMul(r[n], v[n]), DotC(r, v, n - 1))
Row(r, v) == DotC(r, v, Len(r))
I(x, z) == <<-FMul(x, z[2]), FMul(x, z[1])>>          \* i x z for real x
\* One order (index e.o) of the fields of arbitrary amplitudes in any layer.
\* Full vectors over orders: exy = (Ex; Ey), hxy = (Hx; Hy), ezt, hzt (z fields as they
\* enter the transverse equations); rows of the material operators for this order.
CurlClauses(e) ==
    LET n == Len(e.ezt)
        o == e.o
        Ex == e.exy[o]
        Ey == e.exy[n + o]
        Hx == e.hxy[o]
        Hy == e.hxy[n + o]
        C == CSub(CScale(e.ky, Hx), CScale(e.kx, Hy))
        G == CSub(CScale(e.kx, Ey), CScale(e.ky, Ex)) IN
    [ ampere_x  |-> Small(CAdd(CSub(I(e.ky, e.hzt[o]), e.dhy), I(e.w, Row(e.erx, e.exy)))),
      ampere_y  |-> Small(CAdd(CSub(e.dhx, I(e.kx, e.hzt[o])), I(e.w, Row(e.ery, e.exy)))),
      ampere_z  |-> Small(CSub(CScale(e.w, Row(e.ezr, e.ezt)), C)),
      faraday_x |-> Small(CSub(CSub(I(e.ky, e.ezt[o]), e.dey), I(e.w, Row(e.mrx, e.hxy)))),
      faraday_y |-> Small(CSub(CSub(e.dex, I(e.kx, e.ezt[o])), I(e.w, Row(e.mry, e.hxy)))),
      faraday_z |-> Small(CSub(CScale(e.w, Row(e.mzr, e.hzt)), G)),
      ez        |-> Small(CSub(CScale(e.w, e.ez), Row(e.ezi, e.c))),
      hz        |-> Small(CSub(CScale(e.w, e.hz), Row(e.mzi, e.g))),
      defs      |-> Small(CSub(e.c[o], C)) /\ Small(CSub(e.g[o], G)) ]

\* Exact plane waves of a homogeneous layer. hp, hm: magnetic field of the forward and
\* backward wave along the channel; obs: H, E channel components, Ez, Hz; q: observed
\* propagation constant (positive when real).
ExactClauses(e) ==
    LET c == QZ(e.layer, e.pol, e.w, e.k)
        f == HE(c, e.hp, e.hm)
        hz == IF e.pol = "te" THEN CNeg(CDiv(CScale(e.k, f[2]), CScale(e.w, e.layer.m[3]))) ELSE CZero
        ez == IF e.pol = "te" THEN CZero ELSE CNeg(CDiv(CScale(e.k, f[1]), CScale(e.w, e.layer.e[3])))
        T(z) == 60 + (AbsF(z[1]) + AbsF(z[2])) \div 3000 IN
    [ q  |-> CNear(e.q, c.q, T(c.q)),
      h  |-> CNear(e.h, f[1], T(f[1])),
      e  |-> CNear(e.e, f[2], T(f[2])),
      ez |-> CNear(e.ez, ez, T(ez)),
      hz |-> CNear(e.hz, hz, T(hz)),
      cross |-> Small(e.rest) ]

\* req: modes that propagate without loss to within rounding; imq: all others.
ModeClauses(e) == [ forward |-> \A i \in 1..Len(e.imq) : e.imq[i] >= 0,
                    real    |-> \A i \in 1..Len(e.req) : e.req[i] >= 0,
                    finite  |-> Finite(e.imq) /\ Finite(e.req),
                    count   |-> e.count = e.want ]
Clauses(e) == CASE e.ev = "curl" -> CurlClauses(e)
                [] e.ev = "exact" -> ExactClauses(e)
                [] e.ev = "modes" -> ModeClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

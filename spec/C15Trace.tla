------------------------------- MODULE C15Trace -------------------------------
(* "round": amplitudes -> fields on a grid -> amplitudes. "bloch": one Fourier  *)
(* coefficient of a recovered field at one wavevector of the Brillouin grid,    *)
(* computed here from the field on the supercell. "total": sum over the grid.   *)
EXTENDS Stateless, Fix
CONSTANT Tol
TwoPi == 6283185
\* exp(-2 pi i num / den)
Rot(num, den) == LET r == num % den IN CExp(<<0, -FMul(TwoPi, FDiv(r * 1000, den * 1000))>>)
RECURSIVE Acc(_, _, _)
\* Sum over flattened supercell points; e.f has N1 n1 N2 n2 entries, row-major.
Acc(e, i, acc) ==
    IF i = Len(e.f) THEN acc
    ELSE LET cols == e.N2 * e.n2
             x == i \div cols
             y == i % cols
             \* (k + g) r / 2pi = ((2 s + 1 - N) + 2 N g) x / (2 N n), per dimension
             p == Rot(((2 * e.s1 + 1 - e.N1) + 2 * e.N1 * e.g1) * x, 2 * e.N1 * e.n1)
             q == Rot(((2 * e.s2 + 1 - e.N2) + 2 * e.N2 * e.g2) * y, 2 * e.N2 * e.n2)
         IN Acc(e, i + 1, CAdd(acc, CMul(e.f[i + 1], CMul(p, q))))
BlochClauses(e) ==
    LET a == Acc(e, 0, CZero)
        c == <<a[1] \div (e.n1 * e.n2), a[2] \div (e.n1 * e.n2)>> IN
    [ coefficient |-> CNear(e.obs, c, 400 + 40 * e.N1 * e.N2) ]
RoundClauses(e) == [ forward |-> NearSeq(e.a, e.aref, Tol), backward |-> NearSeq(e.b, e.bref, Tol),
                     shape |-> e.ashape = e.want /\ e.bshape = e.want ]
TotalClauses(e) == [ total |-> NearSeq(e.sum, e.want, Tol), shape |-> e.ashape = e.wantshape ]
Clauses(e) == CASE e.ev = "round" -> RoundClauses(e)
                [] e.ev = "bloch" -> BlochClauses(e)
                [] e.ev = "total" -> TotalClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

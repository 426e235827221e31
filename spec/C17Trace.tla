------------------------------- MODULE C17Trace -------------------------------
(* "place": an unflattened array whose input held, at each (batch, s1, s2, term,*)
(* inner), its own code number; NaN recorded as -1. "dir": angles, solid angle  *)
(* and density of one position. "sum": integrals over complementary regions.    *)
(* "sel": unsampled integral over a cone against the orders inside it.          *)
EXTENDS Stateless, Fix
CONSTANT Tol
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* Output layout: (batch, kx, ky, inner); code = ((((b N1 + s1) N2 + s2) T + t) I + inner).
PlaceClauses(e) ==
    LET T == Len(e.orders)
        i1 == {e.orders[t][1] : t \in 1..T}
        i2 == {e.orders[t][2] : t \in 1..T}
        nx == (MaxOf(i1) - MinOf(i1) + 1) * e.N1
        ny == (MaxOf(i2) - MinOf(i2) + 1) * e.N2
        \* position -> the order and grid point it stands for
        G(x, y) == << x \div e.N1 + MinOf(i1), y \div e.N2 + MinOf(i2) >>
        Term(x, y) == {t \in 1..T : e.orders[t][1] = G(x, y)[1] /\ e.orders[t][2] = G(x, y)[2]}
        Code(b, x, y, k) == IF Term(x, y) = {} THEN -1
            ELSE LET t == CHOOSE t \in Term(x, y) : TRUE IN
                 (((b * e.N1 + (x % e.N1)) * e.N2 + (y % e.N2)) * T + (t - 1)) * e.inner + k
        At(b, x, y, k) == e.out[((b * nx + x) * ny + y) * e.inner + k + 1]
    IN [ shape  |-> e.shape = e.lead \o <<nx, ny>> \o e.trail,
         length |-> Len(e.out) = e.B * nx * ny * e.inner,
         placed |-> Len(e.out) = e.B * nx * ny * e.inner =>
                    \A b \in 0..(e.B - 1), x \in 0..(nx - 1), y \in 0..(ny - 1), k \in 0..(e.inner - 1) : At(b, x, y, k) = Code(b, x, y, k) ]

\* Transverse wavevector at a position, polar and azimuthal angle there.
Sin(x) == CExp(<<0, x>>)[2]
Cos(x) == CExp(<<0, x>>)[1]
Kt2(e) == FMul(e.kx, e.kx) + FMul(e.ky, e.ky)
HalfPi == 1570796
DirClauses(e) ==
    LET kt == FSqrt(Kt2(e))
        s == FDiv(FMul(kt, e.wl), 6283185)             \* sine of the polar angle
        c2 == F1 - FMul(s, s) IN
    [ polar   |-> IF s > F1 + 50 THEN AbsF(e.polar - HalfPi) <= 5
                  ELSE AbsF(Sin(e.polar) - s) <= 60 /\ e.polar >= 0 /\ e.polar <= HalfPi + 5,
      azimuth |-> kt < 1000 \/ (AbsF(FMul(kt, Cos(e.azim)) - e.kx) <= 60 + (kt \div 10000) /\ AbsF(FMul(kt, Sin(e.azim)) - e.ky) <= 60 + (kt \div 10000)),
      solid   |-> \/ ~e.interior \/ c2 < 40000
                  \/ AbsF(FMul(e.solid, FSqrt(c2)) - e.area) <= 40 + e.area \div 500 + e.solid \div 500,
      density |-> (c2 < 40000) \/ ~e.interior \/ AbsF(FMul(e.dens, e.solid) - e.flux) <= 100 + AbsF(e.flux) \div 1000,
      place   |-> (AbsF(e.kxobs - e.kx) <= 5 /\ AbsF(e.kyobs - e.ky) <= 5) ]

SumClauses(e) == [ complement |-> \A i \in 1..Len(e.total) : Near(e.inside[i] + e.outside[i], e.total[i], Tol),
                   total |-> NearSeq(e.total, e.flux, Tol),
                   shape |-> e.shape = e.want ]
RECURSIVE Inside(_, _)
Inside(e, k) == IF k = 0 THEN 0 ELSE
    LET o == e.list[k] IN Inside(e, k - 1) + (IF FMul(o[1], o[1]) + FMul(o[2], o[2]) < e.limit2 THEN o[3] ELSE 0)
SelClauses(e) == [ cone |-> Near(Inside(e, Len(e.list)), e.got, Tol + Len(e.list)) ]
Clauses(e) == CASE e.ev = "place" -> PlaceClauses(e)
                [] e.ev = "dir" -> DirClauses(e)
                [] e.ev = "sum" -> SumClauses(e)
                [] e.ev = "sel" -> SelClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

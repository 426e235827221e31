------------------------------- MODULE C13Trace -------------------------------
EXTENDS Stateless, Planar
CONSTANT Tol

\* Elementwise sum of two sequences.
Plus(s, t) == [i \in 1..Len(s) |-> s[i] + t[i]]
SumOf(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
\* Grouping of a flat (entries x columns) array: sum over entries.
\* "flux": arbitrary amplitudes of any layer.
FluxClauses(e) ==
    [ finite        |-> Finite(e.af) /\ Finite(e.ab) /\ Finite(e.df) /\ Finite(e.db),
      shape         |-> e.shapes_ok = <<e.want, e.want, e.want, e.want>>,
      order_amp     |-> NearSeq(Plus(e.af, e.ab), e.order, Tol),
      order_dir     |-> NearSeq(Plus(e.df, e.db), e.order, Tol),
      total_amp     |-> NearSeq(Plus(e.taf, e.tab), e.total, Tol),
      total_dir     |-> NearSeq(Plus(e.tdf, e.tdb), e.total, Tol),
      cell_average  |-> NearSeq(e.grid, e.total, Tol),
      split_amp     |-> NearSeq(e.af, e.refaf, Tol),
      split_dir     |-> NearSeq(e.df, e.refdf, Tol) /\ NearSeq(e.db, e.refdb, Tol),
      scaled        |-> NearSeq(e.scaled, e.total, Tol) ]
\* "modes": each mode alone.
ModeClauses(e) ==
    [ shape   |-> e.shape = e.want,
      alone   |-> NearSeq(e.eig, e.hot, Tol),
      fwd     |-> Len(e.eig) = Len(e.dirf) /\ \A i \in 1..Len(e.eig) :
                     Near(e.dirf[i], IF e.eig[i] > 0 THEN e.eig[i] ELSE 0, Tol),
      bwd     |-> \A i \in 1..Len(e.eig) : Near(e.dirb[i], IF e.eig[i] > 0 THEN 0 ELSE e.eig[i], Tol),
      back    |-> \A i \in 1..Len(e.eig) : Near(e.hotb[i], -e.eig[i], Tol) ]
\* "exact": one order of a homogeneous layer, amplitudes given as magnetic fields h+ , h-.
ExactClauses(e) ==
    LET c == QZ(e.layer, e.pol, e.w, e.k)
        f == HE(c, e.hp, e.hm)
        flux == FMul(f[2][1], f[1][1]) + FMul(f[2][2], f[1][2])
        tol == 100 + AbsF(flux) \div 2000 IN
    [ total |-> AbsF(e.net - flux) <= tol /\ AbsF(e.netdir - flux) <= tol ]

Clauses(e) == CASE e.ev = "flux" -> FluxClauses(e)
                [] e.ev = "modes" -> ModeClauses(e)
                [] e.ev = "exact" -> ExactClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

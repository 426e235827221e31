------------------------------- MODULE C18Trace -------------------------------
(* "field": finite, bounded by one, unit for schemes that normalize.            *)
(* "line": one-dimensional structure; unit field along b u - a v everywhere.    *)
(* "same": field of a structure and of its image under operations.              *)
(* "super": field of a supercell against the repeated field (mean difference).  *)
EXTENDS Stateless, C18Ops, Fix
CONSTANTS Tol, SuperTol
\* o: observables, four per point, points row-major.
Pt(o, sz, p, q) == o[4 * (p[1] * sz[2] + p[2]) + q]
Points(sz) == (0..sz[1] - 1) \X (0..sz[2] - 1)
Norm2(o, sz, p) == Pt(o, sz, p, 1) + Pt(o, sz, p, 2)
FieldClauses(e) ==
    [ finite |-> Finite(e.o),
      bounded |-> \A p \in Points(e.size) : Norm2(e.o, e.size, p) <= F1 + Tol,
      unit |-> e.scheme \in {"normal", "normal_fourier", "jones", "jones_fourier"} =>
        \A p \in Points(e.size) : Near(Norm2(e.o, e.size, p), F1, Tol)
            \* the normal schemes leave isolated zeros of the field at zero
            \/ (e.scheme \in {"normal", "normal_fourier"} /\ Norm2(e.o, e.size, p) <= Tol),
      peak |-> \E p \in Points(e.size) : Norm2(e.o, e.size, p) >= F1 - Tol ]
\* Direction d = b u - a v (fixed point): t parallel to d iff the projector agrees.
LineDir(e) == <<e.n[2] * e.u[1] - e.n[1] * e.v[1], e.n[2] * e.u[2] - e.n[1] * e.v[2]>>
LineClauses(e) ==
    LET d == LineDir(e)
        r == CAbs(d)
        c == FDiv(d[1], r)
        s == FDiv(d[2], r)
    IN [ parallel |-> \A p \in Points(e.size) :
            /\ Near(Pt(e.o, e.size, p, 1), FMul(c, c), Tol)
            /\ Near(Pt(e.o, e.size, p, 2), FMul(s, s), Tol)
            /\ Near(Pt(e.o, e.size, p, 3), FMul(c, s), Tol),
         linear |-> \A p \in Points(e.size) : Near(Pt(e.o, e.size, p, 4), 0, Tol) ]
Turned(q, o) == \* q: the quadratic observables of a point
    CASE o.op = "mirror" -> <<q[1], q[2], -q[3], q[4]>>
      [] o.op = "flipx" -> <<q[1], q[2], -q[3], q[4]>>
      [] o.op = "rot" -> LET c == o.c
                             s == o.s
                             cc == FMul(c, c)
                             ss == FMul(s, s)
                             cs == FMul(c, s)
                         IN << FMul(cc, q[1]) + FMul(ss, q[2]) - 2 * FMul(cs, q[3]),
                               FMul(ss, q[1]) + FMul(cc, q[2]) + 2 * FMul(cs, q[3]),
                               FMul(cs, q[1] - q[2]) + FMul(cc - ss, q[3]), q[4] >>
      [] OTHER -> q
RECURSIVE Image(_, _, _, _, _)
\* Observables at point p of the structure after the first k operations (size sz).
Image(e, k, sz, p, x) ==
    IF k = 0 THEN << Pt(e.o, sz, p, 1), Pt(e.o, sz, p, 2), Pt(e.o, sz, p, 3), Pt(e.o, sz, p, 4) >>
    ELSE Turned(Image(e, k - 1, SizeBefore(e.ops[k], sz), Source(e.ops[k], p, sz[1], sz[2]), x), e.ops[k])
SameClauses(e) ==
    [ finite |-> Finite(e.o2),
      covariant |-> \A p \in Points(e.size2) :
        LET q == Image(e, Len(e.ops), e.size2, p, 0) IN
        \A i \in 1..4 : Near(Pt(e.o2, e.size2, p, i), q[i], Tol * (1 + Len(e.ops))) ]
RECURSIVE SumDiff(_, _, _, _)
SumDiff(e, ps, i, acc) == IF i = 0 THEN acc ELSE
    LET p == <<(i - 1) \div e.size2[2], (i - 1) % e.size2[2]>>
        q == <<p[1] % e.size[1], p[2] % e.size[2]>>
        d(m) == Abs(Pt(e.o2, e.size2, p, m) - Pt(e.o, e.size, q, m))
    IN SumDiff(e, ps, i - 1, acc + (d(1) + d(2) + d(3)) \div 100)
SuperClauses(e) == LET m == e.size2[1] * e.size2[2] IN
    [ repeats |-> Finite(e.o2) /\ SumDiff(e, 0, m, 0) \div m <= SuperTol ]
Clauses(e) == CASE e.ev = "field" -> FieldClauses(e)
                [] e.ev = "line" -> LineClauses(e)
                [] e.ev = "same" -> SameClauses(e)
                [] e.ev = "super" -> SuperClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

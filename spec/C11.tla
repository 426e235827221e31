--------------------------------- MODULE C11 ----------------------------------
(* Exact design model over GF(577): a structure (lattice basis, in-plane        *)
(* wavevector, a pattern on an N x N grid, two layers) with a covariant toy     *)
(* scattering law                                                               *)
(*   S[b](o, o') = c(b) * epshat[b](o - o') * K(o)^perp (x) K(o')^perp          *)
(* (epshat: Fourier coefficients with 576th roots of unity; K: wavevector of    *)
(* the order; perp: pseudovectors like H).  Symmetry operations change the      *)
(* structure; the invariant states that the law of the changed structure is     *)
(* the relabelled law of the original, for any sequence of operations: the      *)
(* relabelling laws compose and are right for the geometry.                     *)
EXTENDS C11Ops, Turn, TLC, FiniteSets
CONSTANTS N, MaxOps, Orders, OpNames
VARIABLES uv, k, eps, rev, label, cnt
vars == <<uv, k, eps, rev, label, cnt>>
M(x) == x % PT
\* Dual basis b1, b2 (without 2 pi): b_i . a_j = delta_ij.
Det(l) == M(l[1][1] * l[2][2] - l[1][2] * l[2][1])
Dual(l) == LET d == InvT(Det(l)) IN << <<M(l[2][2] * d), M(-(l[2][1] * d))>>, <<M(-(l[1][2] * d)), M(l[1][1] * d)>> >>
K(o, l, kk) == LET b == Dual(l) IN << M(kk[1] + o[1] * b[1][1] + o[2] * b[2][1]), M(kk[2] + o[1] * b[1][2] + o[2] * b[2][2]) >>
Perp(v) == <<M(-v[2]), v[1]>>
Pts == (0..N - 1) \X (0..N - 1)
Hat(f, d) == SumT([p \in Pts |-> M(f[p] * W(-(576 \div N) * (d[1] * p[1] + d[2] * p[2])))], Pts)
\* Block b uses layer pattern b (1: transmission forward, 2: backward); reversing exchanges them.
Law(f, l, kk, o1, o2, p1, p2) ==
    M(M(Hat(f, <<o1[1] - o2[1], o1[2] - o2[2]>>) * Perp(K(o1, l, kk))[p1]) * Perp(K(o2, l, kk))[p2])
Init == /\ uv = << <<3, 1>>, <<2, 5>> >>
        /\ k = <<4, 9>>
        /\ eps = << [p \in Pts |-> 1 + p[1] * 3 + p[2] * p[2] * 5 + p[1] * p[2]], [p \in Pts |-> 2 + p[1] * p[1] * 7 + p[2]] >>
        /\ rev = FALSE
        /\ label = Label0(Orders)
        /\ cnt = 0
\* Pattern of the new structure at a new grid point, from the old one.
Move(o, f) == [p \in Pts |->
    CASE o.op = "shift" -> f[<<(p[1] - o.i) % N, (p[2] - o.j) % N>>]
      [] o.op = "swap"  -> f[<<p[2], p[1]>>]
      [] o.op = "negu"  -> f[<<(-p[1]) % N, p[2]>>]
      [] o.op = "negv"  -> f[<<p[1], (-p[2]) % N>>]
      [] o.op = "shear" -> f[<<(p[1] + o.m * p[2]) % N, p[2]>>]
      [] OTHER -> f[p]]
Lin(R, v) == <<M(R[1][1] * v[1] + R[1][2] * v[2]), M(R[2][1] * v[1] + R[2][2] * v[2])>>
Geo(o) == CASE o.op = "rot" -> << <<o.c, M(-o.s)>>, <<o.s, o.c>> >>
            [] o.op = "mirror" -> << <<PT - 1, 0>>, <<0, 1>> >>
            [] OTHER -> << <<1, 0>>, <<0, 1>> >>
Basis(o, l) == CASE o.op = "swap" -> <<l[2], l[1]>>
                 [] o.op = "negu" -> << <<M(-l[1][1]), M(-l[1][2])>>, l[2]>>
                 [] o.op = "negv" -> <<l[1], <<M(-l[2][1]), M(-l[2][2])>> >>
                 [] o.op = "shear" -> <<l[1], <<M(l[2][1] + o.m * l[1][1]), M(l[2][2] + o.m * l[1][2])>> >>
                 [] OTHER -> <<Lin(Geo(o), l[1]), Lin(Geo(o), l[2])>>
Do(o) == /\ cnt < MaxOps
         /\ cnt' = cnt + 1
         /\ uv' = Basis(o, uv)
         /\ k' = Lin(Geo(o), k)
         /\ eps' = LET e == [b \in 1..2 |-> Move(o, eps[b])] IN IF Reverses(o) THEN <<e[2], e[1]>> ELSE e
         /\ rev' = IF Reverses(o) THEN ~rev ELSE rev
         /\ label' = Apply(label, o)
\* (3/5, 4/5) as residues.
C35 == M(3 * InvT(5))
S45 == M(4 * InvT(5))
Next == \/ "shift" \in OpNames /\ \E i, j \in {0, 1, 2} : (i + j > 0) /\ Do([op |-> "shift", i |-> i, j |-> j, nx |-> N, ny |-> N])
        \/ \E n \in {"swap", "negu", "negv", "mirror", "reverse"} \cap OpNames : Do([op |-> n])
        \/ "shear" \in OpNames /\ \E m \in {-1, 2} : Do([op |-> "shear", m |-> m])
        \/ "rot" \in OpNames /\ Do([op |-> "rot", c |-> C35, s |-> S45])
Spec == Init /\ [][Next]_vars
\* The label evaluated in the field.
RECURSIVE Phase(_, _)
Phase(ts, n) == IF n = 0 THEN 1 ELSE M(Phase(ts, n - 1) * W((576 \div ts[n][2]) * ts[n][1]))
RECURSIVE RotAll(_, _, _)
RotAll(rs, v, n) == IF n > Len(rs) THEN v ELSE
    RotAll(rs, IF rs[n].op = "mirror" THEN <<v[1], M(-v[2])>> ELSE Lin(Geo(rs[n]), v), n + 1)
Inv(z) == InvT(z)
\* Original law as a 2x2 tensor relabelled: rotate both indices, multiply the phases.
E0 == << [p \in Pts |-> 1 + p[1] * 3 + p[2] * p[2] * 5 + p[1] * p[2]], [p \in Pts |-> 2 + p[1] * p[1] * 7 + p[2]] >>
Relabelled == LET l0 == << <<3, 1>>, <<2, 5>> >>
                  k0 == <<4, 9>> IN
    \A b \in 1..2, i, j \in 1..Len(Orders), p1, p2 \in 1..2 :
        LET bo == IF label.rev THEN 3 - b ELSE b
            L(x, y) == Law(E0[bo], l0, k0, Orders[i], Orders[j], x, y)
            col(y) == RotAll(label.rots, <<L(1, y), L(2, y)>>, 1)[p1]
            val == RotAll(label.rots, <<col(1), col(2)>>, 1)[p2]
        IN Law(eps[b], uv, k, label.cur[i], label.cur[j], p1, p2)
            = M(val * M(Phase(label.ph[i], Len(label.ph[i])) * Inv(Phase(label.ph[j], Len(label.ph[j])))))
Flagged == rev = label.rev
===============================================================================

------------------------------- MODULE C11Trace -------------------------------
(* "sym": scattering blocks (in-plane magnetic field basis) of a structure and  *)
(* of its image under a sequence of operations; the relabelling is derived here *)
(* from the operations.  "dual": electric and magnetic materials exchanged.     *)
EXTENDS Stateless, C11Ops, Fix
CONSTANT Tol
TwoPi == 6283185
Half(r, d) == IF 2 * r > d THEN r - d ELSE r
Rot1(num, den) == CExp(<<0, FMul(TwoPi, FDiv(Half(num % den, den) * 1000, den * 1000))>>)
RECURSIVE Phase(_, _)
Phase(ts, n) == IF n = 0 THEN COne ELSE CMul(Phase(ts, n - 1), Rot1(ts[n][1], ts[n][2]))
\* Accumulated rotation matrix, rows <<r11, r12>>, <<r21, r22>>.
RECURSIVE RotM(_, _)
RotM(rs, n) == IF n = 0 THEN << <<F1, 0>>, <<0, F1>> >> ELSE
    LET A == RotM(rs, n - 1)
        r == rs[n] IN
    IF r.op = "mirror" THEN << A[1], <<-A[2][1], -A[2][2]>> >>
    ELSE << <<FMul(r.c, A[1][1]) - FMul(r.s, A[2][1]), FMul(r.c, A[1][2]) - FMul(r.s, A[2][2])>>,
            <<FMul(r.s, A[1][1]) + FMul(r.c, A[2][1]), FMul(r.s, A[1][2]) + FMul(r.c, A[2][2])>> >>
\* Blocks are stored flat: index of (order, component) is order + (component - 1) * n, 1-based; complex interleaved.
At(blk, n, r, c) == LET q == ((r - 1) * 2 * n + (c - 1)) * 2 IN <<blk[q + 1], blk[q + 2]>>
BlockOf(b, rv) == IF ~rv THEN b ELSE CASE b = "11" -> "22" [] b = "22" -> "11" [] b = "12" -> "21" [] b = "21" -> "12"
Pos(list, g) == {i \in 1..Len(list) : list[i] = g}
Expected(e, l, R, ph, b, i, j, p1, p2) ==
    LET n == Len(e.orders)
        blk == e.s[BlockOf(b, l.rev)]
        t(a, c) == CScale(FMul(R[p1][a], R[p2][c]), At(blk, n, i + (a - 1) * n, j + (c - 1) * n))
        sum == CAdd(CAdd(t(1, 1), t(1, 2)), CAdd(t(2, 1), t(2, 2)))
    IN CMul(sum, CMul(ph[i], CConj(ph[j])))
Blocks == {"11", "12", "21", "22"}
SymClauses(e) ==
    LET l == ApplyAll(Label0(e.orders), e.ops, 1)
        n == Len(e.orders)
        n2 == Len(e.orders2)
        R == RotM(l.rots, Len(l.rots))
        ph == [k \in 1..n |-> Phase(l.ph[k], Len(l.ph[k]))]
        pos == [k \in 1..n |-> Pos(e.orders2, l.cur[k])]
        at == [k \in 1..n |-> CHOOSE x \in pos[k] : TRUE]
        mapped == {at[k] : k \in 1..n}
        ok == \A k \in 1..n : pos[k] # {}
    IN [ channels |-> ok,
         relabelled |-> ok => \A b \in Blocks, i, j \in 1..n, p1, p2 \in 1..2 :
            CNear(At(e.t[b], n2, at[i] + (p1 - 1) * n2, at[j] + (p2 - 1) * n2), Expected(e, l, R, ph, b, i, j, p1, p2), Tol),
         uncoupled |-> ok => \A b \in Blocks, i \in 1..n, j \in (1..n2) \ mapped, p1, p2 \in 1..2 :
            /\ CNear(At(e.t[b], n2, at[i] + (p1 - 1) * n2, j + (p2 - 1) * n2), CZero, Tol)
            /\ CNear(At(e.t[b], n2, j + (p1 - 1) * n2, at[i] + (p2 - 1) * n2), CZero, Tol) ]
\* Exchange of E and H: the electric vector (-Ey, Ex) of the original turned by a quarter is the magnetic vector
\* of the dual; backward waves carry the opposite electric vector.
Quarter == << <<0, -F1>>, <<F1, 0>> >>
DualClauses(e) ==
    LET n == Len(e.orders)
        l == [rev |-> FALSE]
        ph == [k \in 1..n |-> COne]
        sgn(b, z) == IF b \in {"12", "21"} THEN CNeg(z) ELSE z
    IN [ duality |-> \A b \in Blocks, i, j \in 1..n, p1, p2 \in 1..2 :
            CNear(At(e.t[b], n, i + (p1 - 1) * n, j + (p2 - 1) * n), sgn(b, Expected(e, l, Quarter, ph, b, i, j, p1, p2)), Tol) ]
Clauses(e) == IF e.ev = "sym" THEN SymClauses(e) ELSE DualClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

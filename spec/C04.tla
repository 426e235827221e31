--------------------------------- MODULE C04 ----------------------------------
(* Interior amplitudes over GF(P), two modes per layer: the amplitudes in layer *)
(* k computed from the S-matrices of the substacks before and after it satisfy  *)
(* the boundary values and interface continuity, for all excitations (checked   *)
(* on a basis). States: stacks of the C01 model.                                *)
EXTENDS C01

\* a_k = (1 - b12 a21)^-1 (b11 a0 + b12 a22 bN), b_k = a21 a_k + a22 bN.
Inner(st, k) ==
    LET b == Denote(SubSeq(st, 1, k)).s
        a == Denote(SubSeq(st, k, Len(st))).s
        w == MInv(MSub(I2, MMul(b[2], a[3])))
        f0 == MMul(w, b[1])                       \* response of a_k to a0
        fN == MMul3(w, b[2], a[4])                \* response of a_k to bN
    IN [a0 |-> f0, aN |-> fN, b0 |-> MMul(a[3], f0), bN |-> MAdd(MMul(a[3], fN), a[4])]

InnerRegular(st) == \A k \in 1..Len(st) :
    MDet(MSub(I2, MMul(Denote(SubSeq(st, 1, k)).s[2], Denote(SubSeq(st, k, Len(st))).s[3]))) # 0

\* Boundary values.
Ends == (Regular(den) /\ InnerRegular(den)) =>
    LET f == Inner(den, 1)
        l == Inner(den, Len(den))
        s == Denote(den).s IN
    /\ f.a0 = I2 /\ f.aN = Z2 /\ l.b0 = Z2 /\ l.bN = I2
    /\ l.a0 = s[1] /\ l.aN = s[2] /\ f.b0 = s[3] /\ f.bN = s[4]
\* Continuity of H = phi (F a + b) | phi (a + F b) and E = psi (F a - b) | psi (a - F b).
Continuous == (Regular(den) /\ InnerRegular(den)) => \A k \in 1..(Len(den) - 1) :
    LET x == Inner(den, k)
        y == Inner(den, k + 1)
        l == den[k][1]
        m == den[k + 1][1]
        f == F(l, den[k][2])
        g == F(m, den[k + 1][2])
        H1(a, b) == MMul(Phi(l), MAdd(MMul(f, a), b))
        H2(a, b) == MMul(Phi(m), MAdd(a, MMul(g, b)))
        E1(a, b) == MMul(Psi(l), MSub(MMul(f, a), b))
        E2(a, b) == MMul(Psi(m), MSub(a, MMul(g, b)))
    IN /\ H1(x.a0, x.b0) = H2(y.a0, y.b0) /\ H1(x.aN, x.bN) = H2(y.aN, y.bN)
       /\ E1(x.a0, x.b0) = E2(y.a0, y.b0) /\ E1(x.aN, x.bN) = E2(y.aN, y.bN)
GrowSpec == Init /\ [][DoAppend]_vars
===============================================================================

--------------------------------- MODULE C14 ----------------------------------
(* A source between layers k and k+1 of a stack, over GF(P). The emission       *)
(* system gives the backward amplitude b before and the forward amplitude a     *)
(* after the source; every other amplitude follows from the S-matrices of the   *)
(* two substacks. Theorems: the fields of these amplitudes jump by exactly the  *)
(* source terms at the source and nowhere else, and nothing enters from outside.*)
EXTENDS C04

Before(st, k) == SubSeq(st, 1, k)
After(st, k) == SubSeq(st, k + 1, Len(st))
\* Block matrix of the emission system (rows: jump of E, jump of H; unknowns a, b).
Emission(st, k) ==
    LET l == st[k][1]
        m == st[k + 1][1]
        u == MMul(F(l, st[k][2]), Denote(Before(st, k)).s[2])
        v == MMul(F(m, st[k + 1][2]), Denote(After(st, k)).s[3])
    IN << MMul(Psi(m), MSub(I2, v)), MMul(Psi(l), MSub(I2, u)), MMul(Phi(m), MAdd(I2, v)), MNeg(MMul(Phi(l), MAdd(I2, u))) >>
Schur(M) == MSub(M[4], MMul3(M[3], MInv(M[1]), M[2]))
EmRegular(M) == MDet(M[1]) # 0 /\ MDet(Schur(M)) # 0
BInv(M) == LET x == MInv(M[1])
               s == MInv(Schur(M)) IN
    << MAdd(x, MMul3(MMul(x, M[2]), s, MMul(M[3], x))), MNeg(MMul3(x, M[2], s)), MNeg(MMul3(s, M[3], x)), s >>

\* Response <<to pE, to pH>> of every layer: a at its start, b at its end.
Resp(st, k, i) ==
    LET w == BInv(Emission(st, k)) IN
    IF i <= k THEN LET r == Inner(Before(st, k), i) IN
                   [a |-> <<MMul(r.aN, w[3]), MMul(r.aN, w[4])>>, b |-> <<MMul(r.bN, w[3]), MMul(r.bN, w[4])>>]
    ELSE LET r == Inner(After(st, k), i - k) IN
                   [a |-> <<MMul(r.a0, w[1]), MMul(r.a0, w[2])>>, b |-> <<MMul(r.b0, w[1]), MMul(r.b0, w[2])>>]

HEnd(p, a, b) == MMul(Phi(p[1]), MAdd(MMul(F(p[1], p[2]), a), b))
EEnd(p, a, b) == MMul(Psi(p[1]), MSub(MMul(F(p[1], p[2]), a), b))
HStart(p, a, b) == MMul(Phi(p[1]), MAdd(a, MMul(F(p[1], p[2]), b)))
EStart(p, a, b) == MMul(Psi(p[1]), MSub(a, MMul(F(p[1], p[2]), b)))

Splits == {k \in 1..(Len(den) - 1) :
    /\ InnerRegular(Before(den, k)) /\ InnerRegular(After(den, k)) /\ EmRegular(Emission(den, k))}
Jumps == Regular(den) => \A k \in Splits : \A i \in 1..(Len(den) - 1) :
    LET x == Resp(den, k, i)
        y == Resp(den, k, i + 1) IN
    \A c \in 1..2 :
        /\ MSub(EStart(den[i + 1], y.a[c], y.b[c]), EEnd(den[i], x.a[c], x.b[c])) = (IF i = k /\ c = 1 THEN I2 ELSE Z2)
        /\ MSub(HStart(den[i + 1], y.a[c], y.b[c]), HEnd(den[i], x.a[c], x.b[c])) = (IF i = k /\ c = 2 THEN I2 ELSE Z2)
Outgoing == Regular(den) => \A k \in Splits : \A c \in 1..2 :
    /\ Resp(den, k, 1).a[c] = Z2
    /\ Resp(den, k, Len(den)).b[c] = Z2
===============================================================================

--------------------------------- MODULE C20 ----------------------------------
(* Exact model of differentiating an eigendecomposition, over GF(P) and 2x2     *)
(* matrices.  A = V diag(l) V^-1 has distinct eigenvalues; it is perturbed      *)
(* entry by entry (d accumulates the direction).  Dual numbers x + e x' with    *)
(* e^2 = 0 make derivatives exact.  Invariants:                                 *)
(*   Perturbed: dl = diag(V^-1 d V) and dV = V K, K_ij = (V^-1 d V)_ij /(l_j -  *)
(*     l_i), solve the eigenproblem of A + e d to first order;                  *)
(*   Adjoint: the reverse rule G = V^-T (diag(gl) + F o (V^T gV)) V^T pairs     *)
(*     with every direction like the forward derivative, in any eigenvector     *)
(*     gauge (scaling columns of V and gV oppositely leaves G unchanged);       *)
(*   Invariant: for y = tr(C V diag(c) V^-1), which does not depend on the      *)
(*     scale of the eigenvectors, dy is the sum used by the trace specification.*)
EXTENDS GF, TLC
CONSTANTS MaxSteps, Scales
VARIABLES V, l, d, s, cnt
vars == <<V, l, d, s, cnt>>
El == 0..P - 1
Mats == {<<a, b, c, e>> : a, b, c, e \in El}
Units == {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>}
Init == /\ V \in {m \in Mats : MDet(m) # 0}
        /\ l \in {x \in El \X El : x[1] < x[2]}
        /\ d = Z2
        /\ s \in Scales
        /\ cnt = 0
Next == /\ cnt < MaxSteps
        /\ cnt' = cnt + 1
        /\ \E u \in Units : d' = MAdd(d, u)
        /\ UNCHANGED <<V, l, s>>
Spec == Init /\ [][Next]_vars
L == MDiag(l[1], l[2])
T(M) == <<M[1], M[3], M[2], M[4]>>
A == MMul3(V, L, MInv(V))
B == MMul3(MInv(V), d, V)
dl == <<B[1], B[4]>>
Gap == Iv(Sb(l[2], l[1]))                              \* 1 / (l_2 - l_1)
K == <<0, Ml(B[2], Gap), Ml(B[3], Md(-Gap)), 0>>
dV == MMul(V, K)
\* (A + e d)(V + e dV) = (V + e dV)(L + e dL), first-order part.
Perturbed == /\ MMul(A, V) = MMul(V, L)
             /\ MAdd(MMul(d, V), MMul(A, dV)) = MAdd(MMul(dV, L), MMul(V, MDiag(dl[1], dl[2])))
\* A fixed set of cotangents.
Cots == {<< <<1, 2>>, <<3, 1, 4, 1>> >>, << <<0, 1>>, <<2, 0, 1, 3>> >>, << <<4, 0>>, <<0, 1, 1, 0>> >>}
Pair(X, Y) == Md(X[1] * Y[1] + X[2] * Y[2] + X[3] * Y[3] + X[4] * Y[4])
Had(M) == <<0, Ml(M[2], Gap), Ml(M[3], Md(-Gap)), 0>>
Reverse(VV, gl, gV) == MMul3(T(MInv(VV)), MAdd(MDiag(gl[1], gl[2]), Had(MMul(T(VV), gV))), T(VV))
Adjoint == \A g \in Cots :
    LET G == Reverse(V, g[1], g[2])
        VS == MMul(V, MDiag(s[1], s[2]))
        gS == MMul(g[2], MDiag(Iv(s[1]), Iv(s[2])))
    IN /\ Pair(G, d) = Md(Ml(g[1][1], dl[1]) + Ml(g[1][2], dl[2]) + Pair(g[2], dV))
       /\ Reverse(VS, g[1], gS) = G
Cs == {<<1, 3, 2, 2>>, <<0, 1, 4, 1>>}
Tr(M) == Ad(M[1], M[4])
\* y' through V' = V + e dV: (V + e dV) c (V + e dV)^-1 = V c V^-1 + e (dV c V^-1 - V c V^-1 dV V^-1).
Invariant == \A C \in Cs, c \in {<<1, 3>>, <<2, 2>>} :
    LET W == MInv(V)
        D == MDiag(c[1], c[2])
        direct == MSub(MMul3(dV, D, W), MMul(MMul3(V, D, W), MMul(dV, W)))
        M == MMul3(W, C, V)
        E == <<0, Ml(Ml(B[2], Sb(c[2], c[1])), Gap), Ml(Ml(B[3], Sb(c[1], c[2])), Md(-Gap)), 0>>
    IN Tr(MMul(C, direct)) = Tr(MMul(M, E))
===============================================================================

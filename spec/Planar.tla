-------------------------------- MODULE Planar --------------------------------
(* Exact planar optics in fixed point. A layer is [e |-> <<exx, eyy, ezz>>,     *)
(* m |-> <<mxx, myy, mzz>>, d |-> thickness] with complex entries, in the frame *)
(* whose first axis is the direction of the in-plane wavevector (length k).     *)
(* Conventions: c = eps0 = mu0 = 1, exp(-i w t), H = a + b, E = Z (a - b),      *)
(* forward waves exp(i q z).                                                    *)
EXTENDS Fix

\* TE: H along the wavevector (x), E along y. TM: H along y, E along x.
Q2TE(L, w, k) == LET ww == FMul(w, w)
                     kk == FMul(k, k) IN
    CSub(CScale(ww, CMul(L.e[2], L.m[1])), CScale(kk, CDiv(L.m[1], L.m[3])))
Q2TM(L, w, k) == LET ww == FMul(w, w)
                     kk == FMul(k, k) IN
    CSub(CScale(ww, CMul(L.e[1], L.m[2])), CScale(kk, CDiv(L.e[1], L.e[3])))
QZ(L, pol, w, k) ==
    LET q == CSqrt(IF pol = "te" THEN Q2TE(L, w, k) ELSE Q2TM(L, w, k)) IN
    [q |-> q, d |-> L.d,
     z |-> IF pol = "te" THEN CDiv(CScale(w, L.m[1]), q) ELSE CDiv(q, CScale(w, L.e[1]))]
\* Phase factor over a distance, forward (+) and its inverse (-).
Phase(c, d) == CExp(CMul(CI, CScale(d, c.q)))
InvPhase(c, d) == CExp(CNeg(CMul(CI, CScale(d, c.q))))

FwdC(c, h) == CHalf(CAdd(h[1], CDiv(h[2], c.z)))
BwdC(c, h) == CHalf(CSub(h[1], CDiv(h[2], c.z)))
HE(c, a, b) == <<CAdd(a, b), CMul(c.z, CSub(a, b))>>
\* Fields <<H, E>> at the start of a channel layer from those at its end.
ThroughC(c, h) == HE(c, CMul(FwdC(c, h), InvPhase(c, c.d)), CMul(BwdC(c, h), Phase(c, c.d)))

RECURSIVE BackFields(_)
BackFields(cs) == IF Len(cs) = 2 THEN HE(cs[2], COne, CZero)
                  ELSE ThroughC(cs[2], BackFields(Tail(cs)))
\* <<a_0, b_0>> for unit transmitted amplitude.
BackC(cs) == IF Len(cs) = 1 THEN <<COne, CZero>>
             ELSE LET h == BackFields(cs) IN
                  <<CMul(FwdC(cs[1], h), InvPhase(cs[1], cs[1].d)), BwdC(cs[1], h)>>
RevC(cs) == [i \in 1..Len(cs) |-> cs[Len(cs) + 1 - i]]
\* <<s11, s21>> of a channel.
SPair(cs) == LET r == BackC(cs) IN <<CDiv(COne, r[1]), CDiv(r[2], r[1])>>
===============================================================================

--------------------------------- MODULE Turn ---------------------------------
(* Roots of unity in GF(577): W(e) is exp(2 pi i e / 576) for the exact models. *)
EXTENDS Integers, Sequences
PT == 577
RECURSIVE PowT(_, _)
PowT(x, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 0 THEN LET h == PowT(x, n \div 2) IN (h * h) % PT ELSE (x * PowT(x, n - 1)) % PT
WTab == [e \in 0..575 |-> PowT(5, e)]
W(e) == WTab[e % 576]
InvT(x) == PowT(x, 575)
RECURSIVE SumT(_, _)
SumT(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + SumT(f, S \ {x})) % PT
===============================================================================

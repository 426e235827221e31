------------------------------- MODULE FixTest --------------------------------
(* Exhaustive sanity model of the fixed-point arithmetic on a sample lattice.   *)
EXTENDS Fix, TLC
CONSTANT V
VARIABLES a, b
Init == a \in V \X V /\ b \in V \X V
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
MulDiv == b = <<0, 0>> \/ CNear(CMul(CDiv(a, b), b), a, 20 + CAbs(b) \div 300000 + CAbs(CDiv(a, b)) \div 300000)
Root == LET r == CSqrt(a) IN (AbsF(a[1]) + AbsF(a[2]) < 100000) \/ (CNear(CMul(r, r), a, 12 + CAbs(a) \div 200000) /\ r[2] >= 0)
Exp == LET s == CAdd(a, b) IN (AbsF(a[1]) > 2500000 \/ AbsF(b[1]) > 2500000)
    \/ CNear(CMul(CExp(a), CExp(b)), CExp(s), 80 + CAbs(CExp(s)) \div 10000)
===============================================================================

--------------------------------- MODULE C15 ----------------------------------
(* Bloch decomposition of a field on a supercell, exactly over GF(577), one     *)
(* dimension (the two dimensions separate): N cells of n points, N grid         *)
(* wavevectors (2s+1-N)/(2N), orders a complete residue system mod n.           *)
(* Theorems: the wavevectors' reconstructed fields sum to N times the field;    *)
(* a field that is a single Bloch wave is found at its wavevector only.         *)
EXTENDS Turn, TLC
CONSTANTS MaxN, MaxPts
VARIABLES N, n, lo, at
vars == <<N, n, lo, at>>
Init == /\ N \in 1..MaxN /\ n \in 1..MaxPts /\ lo \in 0..(n - 1)      \* orders -lo .. n-1-lo
        /\ at \in 0..(N * n - 1) /\ 288 % (N * n) = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Orders == (-lo)..(n - 1 - lo)
Pts == 0..(N * n - 1)
Kv == 0..(N - 1)
\* Exponent of exp(i (k_s + g) r_i).
Ex(s, g, i) == ((2 * s + 1 - N) * i * 288) \div (N * n) + (g * i * 576) \div n
Coef(f, s, g) == (InvT(n) * SumT([i \in Pts |-> (f[i] * W(-Ex(s, g, i))) % PT], Pts)) % PT
Recon(f, s, i) == SumT([g \in Orders |-> (Coef(f, s, g) * W(Ex(s, g, i))) % PT], Orders)
Delta == [i \in Pts |-> IF i = at THEN 1 ELSE 0]
Complete == \A i \in Pts : SumT([s \in Kv |-> Recon(Delta, s, i)], Kv) = (N * Delta[i]) % PT
\* `at` read as (wavevector, order) pair.
Wave == [i \in Pts |-> W(Ex(at % N, (at \div N) - lo, i))]
Separate == \A s \in Kv : \A g \in Orders :
    Coef(Wave, s, g) = IF s = at % N /\ g = (at \div N) - lo THEN N % PT ELSE 0
===============================================================================

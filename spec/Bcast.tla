--------------------------------- MODULE Bcast --------------------------------
(* Broadcasting of batch shapes (trailing axes aligned, unit axes stretched).   *)
EXTENDS Integers, Sequences
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* Dimension of axis k of rank r seen from a shape s of smaller or equal rank.
Dim(s, k, r) == LET j == k - (r - Len(s)) IN IF j < 1 THEN 1 ELSE s[j]
Broadcast(s, t) == LET r == MaxI(Len(s), Len(t)) IN [k \in 1..r |-> MaxI(Dim(s, k, r), Dim(t, k, r))]
Indices(s) == {ix \in [1..Len(s) -> 0..7] : \A k \in 1..Len(s) : ix[k] < s[k]}
\* The index of an input of shape s that index ix of the result refers to.
Project(ix, s) == [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE ix[k + Len(ix) - Len(s)]]
RECURSIVE Flat(_, _, _)
Flat(ix, s, k) == IF k = 0 THEN 0 ELSE Flat(ix, s, k - 1) * s[k] + ix[k]
RECURSIVE BroadcastAll(_, _)
BroadcastAll(ss, k) == IF k = 0 THEN <<>> ELSE Broadcast(BroadcastAll(ss, k - 1), ss[k])
===============================================================================

--------------------------------- MODULE C06 ----------------------------------
(* Design model of batching: a calculation combines inputs two at a time, each  *)
(* combination aligning the trailing batch axes (broadcasting).  A value is a   *)
(* batch shape and, per batch index, the set of input elements it was computed  *)
(* from.  Theorem (invariants): whatever the order of the combinations, the     *)
(* final shape is the broadcast of the input shapes and the element at each     *)
(* index was computed from exactly the projections of that index - the inputs   *)
(* a single calculation for that index would use.                               *)
EXTENDS Bcast, TLC
CONSTANTS NIn, Dims, MaxRank
VARIABLES ins, pool
vars == <<ins, pool>>
Shapes == UNION {[1..r -> Dims] : r \in 0..MaxRank}
Compatible(s, t) == Len(s) = 0 \/ Len(t) = 0 \/
    \A k \in 1..MinI(Len(s), Len(t)) : LET a == s[Len(s) - k + 1]  b == t[Len(t) - k + 1] IN a = b \/ a = 1 \/ b = 1
Leaf(i, s) == [shape |-> s, deps |-> {i}, val |-> [ix \in Indices(s) |-> {<<i, ix>>}]]
Combine(x, y) == LET s == Broadcast(x.shape, y.shape) IN
    [shape |-> s, deps |-> x.deps \cup y.deps, val |-> [ix \in Indices(s) |-> x.val[Project(ix, x.shape)] \cup y.val[Project(ix, y.shape)]]]
Init == /\ ins \in {f \in [1..NIn -> Shapes] : \A i, j \in 1..NIn : Compatible(f[i], f[j])}
        /\ pool = {Leaf(i, ins[i]) : i \in 1..NIn}
Next == \E x, y \in pool : /\ x # y
                           /\ pool' = (pool \ {x, y}) \cup {Combine(x, y)}
                           /\ UNCHANGED ins
Spec == Init /\ [][Next]_vars
RECURSIVE AllShape(_, _)
AllShape(S, acc) == IF S = {} THEN acc ELSE LET i == CHOOSE i \in S : TRUE IN AllShape(S \ {i}, Broadcast(acc, ins[i]))
ShapeIsBroadcast == \A v \in pool : v.shape = AllShape(v.deps, <<>>)
ElementIsSingle == \A v \in pool : \A ix \in Indices(v.shape) : v.val[ix] = {<<i, Project(ix, ins[i])>> : i \in v.deps}
===============================================================================

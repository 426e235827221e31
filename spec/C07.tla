--------------------------------- MODULE C07 ----------------------------------
(* Design: the sets of orders of an expansion, over all small integer lattices  *)
(* and requested sizes. Also enumerates the scenarios replayed in the code.     *)
EXTENDS Lat, FiniteSets, TLC, Json

CONSTANTS Coord, Nums

VARIABLES lat, num
vars == <<lat, num>>

Lattices == {L \in Coord \X Coord \X Coord \X Coord : Cross(L) # 0}
Init == lat \in Lattices /\ num \in Nums
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

S == CircleMust(lat, num)
May == {g \in Box(lat, num) : ~SurelyOut(lat, num, g)}
Neg(g) == <<-g[1], -g[2]>>
HasZero == <<0, 0>> \in S
Symmetric == \A g \in S : Neg(g) \in S
Bracketed == S \subseteq May
\* No member touches the edge of the candidate box: the box is large enough.
BoxLarge == \A g \in May : AbsI(g[1]) <= BoxA(lat, num) /\ AbsI(g[2]) <= BoxB(lat, num)
            /\ (AbsI(g[1]) = BoxA(lat, num) => g[1] * g[1] * 3 * AbsI(Cross(lat)) <= num * UU(lat))
\* Choosing another basis (u, v + u) of the same lattice relabels the orders:
\* G = m u' + n v' with u' -> u' - v', so m -> m, n -> n + m.
Sheared == LET L2 == <<lat[1], lat[2], lat[3] + lat[1], lat[4] + lat[2]>>
           IN CircleMust(L2, num) = {<<g[1], g[2] + g[1]>> : g \in S}
\* Exchanging u and v exchanges the coefficients.
Swapped == CircleMust(<<lat[3], lat[4], lat[1], lat[2]>>, num) = {<<g[2], g[1]>> : g \in S}
===============================================================================

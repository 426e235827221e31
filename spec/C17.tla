--------------------------------- MODULE C17 ----------------------------------
(* Unflattening as a map from (grid point, order) to array position, for every  *)
(* set of orders in a small box (symmetric or not) and every small grid.        *)
(* Theorems: positions are distinct and in range, every first and last row and  *)
(* column is used, and position is an affine function of the wavevector.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Box, MaxGrid
VARIABLES orders, N1, N2
vars == <<orders, N1, N2>>
Init == orders \in (SUBSET (Box \X Box)) \ {{}} /\ N1 \in 1..MaxGrid /\ N2 \in 1..MaxGrid
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
I1 == {g[1] : g \in orders}
I2 == {g[2] : g \in orders}
Pos(s, g) == << (g[1] - MinOf(I1)) * N1 + s[1], (g[2] - MinOf(I2)) * N2 + s[2] >>
Shape == << (MaxOf(I1) - MinOf(I1) + 1) * N1, (MaxOf(I2) - MinOf(I2) + 1) * N2 >>
Grid == (0..(N1 - 1)) \X (0..(N2 - 1))
Cells == Grid \X orders
\* 2 N times the wavevector, in reciprocal vectors.
K2(s, g) == << 2 * s[1] + 1 - N1 + 2 * N1 * g[1], 2 * s[2] + 1 - N2 + 2 * N2 * g[2] >>
OnceEach == Cardinality({Pos(c[1], c[2]) : c \in Cells}) = Cardinality(Cells)
InRange == \A c \in Cells : LET p == Pos(c[1], c[2]) IN p[1] \in 0..(Shape[1] - 1) /\ p[2] \in 0..(Shape[2] - 1)
Tight == LET P == {Pos(c[1], c[2]) : c \in Cells} IN
    /\ 0 \in {p[1] : p \in P} /\ Shape[1] - 1 \in {p[1] : p \in P}
    /\ 0 \in {p[2] : p \in P} /\ Shape[2] - 1 \in {p[2] : p \in P}
Affine == \A c \in Cells : LET p == Pos(c[1], c[2])
                               k == K2(c[1], c[2]) IN
    /\ k[1] = 2 * p[1] + 1 - N1 + 2 * N1 * MinOf(I1)
    /\ k[2] = 2 * p[2] + 1 - N2 + 2 * N2 * MinOf(I2)
===============================================================================

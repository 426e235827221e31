--------------------------------- MODULE C19 ----------------------------------
(* Rotations over GF(P): angles are points (c, s) with c^2 + s^2 = 1. States:   *)
(* all triples of angles. The documented rotation (about y, then z, then about  *)
(* the resulting axis, Rodrigues form) is a proper rotation, carries z to the   *)
(* propagation direction, fixes it under polarization rotation, and equals the  *)
(* Euler product Rz(az) Ry(polar) Rz(pol).                                      *)
EXTENDS GF, FiniteSets
VARIABLES polar, az, pol
vars == <<polar, az, pol>>
Circle == {p \in (0..(P - 1)) \X (0..(P - 1)) : Ad(Ml(p[1], p[1]), Ml(p[2], p[2])) = 1}
Init == polar \in Circle /\ az \in Circle /\ pol = <<1, 0>>
Turn == pol = <<1, 0>> /\ pol' \in Circle /\ UNCHANGED <<polar, az>>
Next == Turn
Spec == Init /\ [][Next]_vars

N(x) == Sb(0, x)
M3(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> Ad(Ml(A[i][1], B[1][j]), Ad(Ml(A[i][2], B[2][j]), Ml(A[i][3], B[3][j])))]]
T3(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Ry(a) == <<<<a[1], 0, a[2]>>, <<0, 1, 0>>, <<N(a[2]), 0, a[1]>>>>
Rz(a) == <<<<a[1], N(a[2]), 0>>, <<a[2], a[1], 0>>, <<0, 0, 1>>>>
Axis == <<Ml(az[1], polar[2]), Ml(az[2], polar[2]), polar[1]>>
\* cos I + (1 - cos) u u^T + sin [u]x
Cross == <<<<0, N(Axis[3]), Axis[2]>>, <<Axis[3], 0, N(Axis[1])>>, <<N(Axis[2]), Axis[1], 0>>>>
About == [i \in 1..3 |-> [j \in 1..3 |->
    Ad(IF i = j THEN pol[1] ELSE 0, Ad(Ml(Sb(1, pol[1]), Ml(Axis[i], Axis[j])), Ml(pol[2], Cross[i][j])))]]
R == M3(About, M3(Rz(az), Ry(polar)))
Proper == M3(R, T3(R)) = Id
Euler == R = M3(Rz(az), M3(Ry(polar), Rz(pol)))
Direction == <<R[1][3], R[2][3], R[3][3]>> = Axis
===============================================================================

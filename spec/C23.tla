--------------------------------- MODULE C23 ----------------------------------
(* Interpolation along the straight line between complex refractive indices.   *)
(* Indices are integers in tenths, density d in tenths; the result in units of  *)
(* 10^-4 is exact. States: all pairs of materials and densities.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ns, Ks
VARIABLES solid, void, d
vars == <<solid, void, d>>
Sq(z) == <<z[1] * z[1] - z[2] * z[2], 2 * z[1] * z[2]>>
Index(s, v, x) == <<x * s[1] + (10 - x) * v[1], x * s[2] + (10 - x) * v[2]>>
Eps(s, v, x) == Sq(Index(s, v, x))
Materials == {m \in Ns \X Ks : m # <<0, 0>> /\ (m[2] >= 0 \/ m[1] > 0)}
Init == solid \in Materials /\ void \in Materials /\ d = 0
Next == d < 10 /\ d' = d + 1 /\ UNCHANGED <<solid, void>>
Spec == Init /\ [][Next]_vars

Scaled(m) == <<100 * Sq(m)[1], 100 * Sq(m)[2]>>
Ends == Eps(solid, void, 0) = Scaled(void) /\ Eps(solid, void, 10) = Scaled(solid)
Passive == (solid[2] >= 0 /\ void[2] >= 0) => Eps(solid, void, d)[2] >= 0
NoZero == (solid[2] >= 0 /\ void[2] >= 0) => Eps(solid, void, d) # <<0, 0>>
Same == (solid = void) => Eps(solid, void, d) = Scaled(solid)
Swap == Eps(solid, void, d) = Eps(void, solid, 10 - d)
Emit == PrintT("@ROW " \o ToJson(<<solid[1], solid[2], void[1], void[2], d>>))
===============================================================================

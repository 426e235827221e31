-------------------------------- MODULE C19Gen --------------------------------
(* Scenarios: angles, coordinate array shapes, origins.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Angles, Shapes, Origins
VARIABLES polar, az, pol, shape, origin
vars == <<polar, az, pol, shape, origin>>
Init == polar \in Angles /\ az \in Angles /\ pol \in Angles /\ shape \in Shapes /\ origin \in Origins
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("@SCN " \o ToJson([polar |-> polar, az |-> az, pol |-> pol, shape |-> shape, origin |-> origin]))
===============================================================================

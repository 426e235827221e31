-------------------------------- MODULE C10Gen --------------------------------
(* Emits every admissible description of every kind with its denotation.        *)
EXTENDS C10Ops, TLC, Json
VARIABLES kind, d
Init == kind \in Kinds /\ d \in {x \in Descs : Admissible(kind, x)}
Next == FALSE /\ UNCHANGED <<kind, d>>
Spec == Init /\ [][Next]_<<kind, d>>
Emit == PrintT("@SCN " \o ToJson([kind |-> kind, desc |-> d, den |-> Denote(kind, d)]))
===============================================================================

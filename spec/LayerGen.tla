------------------------------- MODULE LayerGen -------------------------------
(* Scenarios with one layer: kind of material, formulation, expansion, variant. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Forms, Exps, Variants
VARIABLES kind, form, exp, var
vars == <<kind, form, exp, var>>
Init == kind \in Kinds /\ form \in Forms /\ exp \in Exps /\ var \in Variants
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("@SCN " \o ToJson([kind |-> kind, form |-> form, exp |-> exp, var |-> var]))
===============================================================================

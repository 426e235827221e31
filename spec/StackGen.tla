------------------------------- MODULE StackGen -------------------------------
(* Chooses structure classes, expansions, batch shapes and excitations for the  *)
(* checks that work on arbitrary (patterned) stacks. Exhaustive enumeration of  *)
(* the product; the concrete pattern is a function of the scenario's number.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Classes, Exps, Batches, Cols, Sides, Counts
VARIABLES cls, exp, batch, cols, side, nl
vars == <<cls, exp, batch, cols, side, nl>>
Init == /\ cls \in Classes /\ exp \in Exps /\ batch \in Batches /\ cols \in Cols
        /\ side \in Sides /\ nl \in Counts
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("@SCN " \o ToJson([cls |-> cls, exp |-> exp, batch |-> batch, cols |-> cols, side |-> side, nl |-> nl]))
===============================================================================

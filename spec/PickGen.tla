-------------------------------- MODULE PickGen -------------------------------
(* Scenario generator: one transition per field of the scenario record, so that *)
(* TLC can either enumerate all scenarios (breadth first) or sample them        *)
(* (simulation).  Fields is a sequence of <<name, set of values>>.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Fields
VARIABLES k, rec
vars == <<k, rec>>
Init == k = 0 /\ rec = [sid |-> 0]
Next == /\ k < Len(Fields)
        /\ \E v \in Fields[k + 1][2] : rec' = rec @@ (Fields[k + 1][1] :> v)
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Emit == k < Len(Fields) \/ PrintT("@SCN " \o ToJson(rec))
===============================================================================

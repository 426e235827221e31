--------------------------------- MODULE C10 ----------------------------------
(* Rewriting of layer descriptions by the documented equivalences.  Invariant:  *)
(* rewriting never changes the discrete problem; and (postcondition by          *)
(* Complete) any two descriptions of the same problem are connected, so the     *)
(* equivalence classes the conformance check uses are exactly the denotations.  *)
EXTENDS C10Ops, TLC
VARIABLES kind, start, d
vars == <<kind, start, d>>
Init == /\ kind \in Kinds
        /\ start \in {x \in Descs : Admissible(kind, x)}
        /\ d = start
Go(x) == /\ Admissible(kind, x)
         /\ d' = x
         /\ UNCHANGED <<kind, start>>
SwitchCall == d.form # "fft" /\ Go([d EXCEPT !.call = ~d.call])          \* builtin <-> equal callable
SwitchSource == d.api = "gen" /\ \E s \in {"default", "explicit"} : Go([d EXCEPT !.src = s])
Widen == \/ d.api = "aniso" /\ Go([d EXCEPT !.api = "gen"])              \* unit permeability
         \/ d.api = "gen" /\ d.src = "default" /\ Go([d EXCEPT !.api = "aniso"])
         \/ /\ d.api = "iso" /\ (kind \in Homogeneous \cup Gratings \/ d.form = "fft")   \* diagonal tensor
            /\ Go([d EXCEPT !.api = "aniso"])
         \/ /\ d.api = "aniso" /\ (kind \in Homogeneous \cup Gratings \/ d.form = "fft")
            /\ Go([d EXCEPT !.api = "iso"])
Reshape == \E l \in Layouts : Go([d EXCEPT !.lay = l])
Reform == \E f \in Forms :
    \/ kind \in Homogeneous /\ Go([d EXCEPT !.form = f, !.call = IF f = "fft" THEN FALSE ELSE d.call])
    \/ kind \in Gratings /\ d.form # "fft" /\ f # "fft" /\ Go([d EXCEPT !.form = f])
Next == SwitchCall \/ SwitchSource \/ Widen \/ Reshape \/ Reform
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameProblem == Denote(kind, d) = Denote(kind, start)
\* Every admissible description of the same problem can be reached (checked as reachability of each pair).
TotalPairs == Cardinality({<<k, x, y>> \in Kinds \X Descs \X Descs : Admissible(k, x) /\ Admissible(k, y) /\ Denote(k, x) = Denote(k, y)})
Complete == TLCGet("distinct") = TotalPairs
===============================================================================

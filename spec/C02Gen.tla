-------------------------------- MODULE C02Gen --------------------------------
(* Scenarios: homogeneous stacks between isotropic ambients.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ambients, Media, ThickIds, KIds, WIds, ExpIds, AxIds, MaxLen
VARIABLES stack, cfgv, done
vars == <<stack, cfgv, done>>
Init == /\ \E m \in Ambients, d \in ThickIds : stack = <<(<<m, d>>)>>
        /\ cfgv \in [k : KIds, w : WIds, e : ExpIds, ax : AxIds]
        /\ done = FALSE
Grow == ~done /\ Len(stack) < MaxLen /\ \E m \in Media, d \in ThickIds :
            stack' = Append(stack, <<m, d>>) /\ UNCHANGED <<cfgv, done>>
Close == /\ ~done /\ Len(stack) >= 1
         /\ \E m \in Ambients, d \in ThickIds :
              /\ stack' = Append(stack, <<m, d>>)
              /\ done' = TRUE /\ UNCHANGED cfgv
Show == done /\ stack # <<>> /\ PrintT("@SCN " \o ToJson([stack |-> stack, cfg |-> cfgv]))
        /\ stack' = <<>> /\ UNCHANGED <<cfgv, done>>
Next == Grow \/ Close \/ Show
Spec == Init /\ [][Next]_vars
Typed == Len(stack) <= MaxLen + 1
===============================================================================

-------------------------------- MODULE C01Gen --------------------------------
(* Generates histories of scattering-matrix operations for replay in the code.  *)
EXTENDS C01Ops, TLC, Json, FiniteSets

CONSTANTS Layers, Thick, Flavours, ScanFlavours, Depth, MaxLen

VARIABLES flavour, pool, hist, done
vars == <<flavour, pool, hist, done>>

Pairs == Layers \X Thick
Stacks(n) == UNION {[1..k -> Pairs] : k \in 1..n}

Do(o) == /\ hist' = Append(hist, o)
         /\ pool' = Append(pool, DenOf(pool, o))
         /\ UNCHANGED <<flavour, done>>

Init == /\ flavour \in Flavours /\ done = FALSE
        /\ \E st \in Stacks(2) : pool = <<st>> /\ hist = <<[op |-> "build", st |-> st]>>

Ix == 1..Len(pool)
Recent == {i \in Ix : i + 5 > Len(pool)}
Build == \E st \in [1..3 -> Pairs] : Do([op |-> "build", st |-> st])
Scan == /\ flavour \in ScanFlavours
        /\ \E n \in {1, 2, 3} : \E st \in [1..n -> Pairs] : Do([op |-> "scan", st |-> st])
Before == \E st \in [1..3 -> Pairs] : \E k \in 1..3 : Do([op |-> "before", st |-> st, k |-> k])
After == \E st \in [1..3 -> Pairs] : \E k \in 1..3 : Do([op |-> "after", st |-> st, k |-> k])
App == \E i \in Recent : \E p \in Pairs :
    Len(pool[i]) < MaxLen /\ Do([op |-> "append", i |-> i, l |-> p[1], t |-> p[2]])
Prep == \E i \in Recent : \E p \in Pairs :
    Len(pool[i]) < MaxLen /\ Do([op |-> "prepend", i |-> i, l |-> p[1], t |-> p[2]])
Star == \E i, j \in Recent :
    Len(pool[i]) + Len(pool[j]) <= MaxLen /\ Do([op |-> "star", i |-> i, j |-> j])
SetEnd == \E i \in Recent : \E t \in Thick :
    Len(pool[i]) > 1 /\ Do([op |-> "setend", i |-> i, t |-> t])
SetStart == \E i \in Recent : \E t \in Thick :
    Len(pool[i]) > 1 /\ Do([op |-> "setstart", i |-> i, t |-> t])

Finish == /\ Len(hist) = Depth /\ ~done
          /\ PrintT("@SCN " \o ToJson([flavour |-> flavour, ops |-> hist, dens |-> pool]))
          /\ done' = TRUE /\ UNCHANGED <<flavour, pool, hist>>
More(A) == Len(hist) < Depth /\ A
Next == \/ More(Build) \/ More(Scan) \/ More(Before) \/ More(After) \/ More(App) \/ More(Prep)
        \/ More(Star) \/ More(SetEnd) \/ More(SetStart) \/ Finish
Spec == Init /\ [][Next]_vars

NonEmpty == \A i \in Ix : Len(pool[i]) \in 1..MaxLen
===============================================================================

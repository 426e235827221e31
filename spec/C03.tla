--------------------------------- MODULE C03 ----------------------------------
(* Energy ledger of planar stacks. A behaviour walks from the exit of a stack   *)
(* (transmitted plus incident waves of the last medium) backwards through        *)
(* layers, a quarter of a layer at a time, carrying the tangential fields       *)
(* <<H, E>> and the flux Re(E conj H) at the current plane. Invariants: flux is *)
(* unchanged by lossless quarters and interfaces, and not smaller upstream of   *)
(* absorbing ones.                                                              *)
EXTENDS Planar, TLC
CONSTANTS Media, MaxLayers, W, K
VARIABLES fields, flux, last, n, moved
vars == <<fields, flux, last, n, moved>>

C1(x) == <<x, 0>>
Medium(m) == CASE m = 1 -> [e |-> <<COne, COne, COne>>, m |-> <<COne, COne, COne>>, loss |-> FALSE]
               [] m = 2 -> [e |-> <<C1(2250000), C1(2250000), C1(2250000)>>, m |-> <<COne, COne, COne>>, loss |-> FALSE]
               [] m = 3 -> [e |-> <<<<-4000000, 500000>>, <<-4000000, 500000>>, <<-4000000, 500000>>>>, m |-> <<COne, COne, COne>>, loss |-> TRUE]
               [] m = 4 -> [e |-> <<<<2100000, 100000>>, C1(3400000), <<1800000, 200000>>>>, m |-> <<C1(1200000), <<1600000, 100000>>, C1(1400000)>>, loss |-> TRUE]
               [] m = 5 -> [e |-> <<C1(2000000), C1(2000000), C1(3000000)>>, m |-> <<C1(1500000), C1(1500000), C1(1200000)>>, loss |-> FALSE]
               [] m = 6 -> [e |-> <<C1(400000), C1(400000), C1(400000)>>, m |-> <<COne, COne, COne>>, loss |-> FALSE]
Quarter == 80000
Chan(m, pol) == LET x == Medium(m) IN QZ([e |-> x.e, m |-> x.m, d |-> Quarter], pol, W, K)
Flux(f) == FMul(f[2][1], f[1][1]) + FMul(f[2][2], f[1][2])
Pols == {"te", "tm"}

Init == \E m \in Media, pol \in Pols, b \in {CZero, <<300000, -400000>>} :
        /\ fields = HE(Chan(m, pol), COne, b)
        /\ flux = Flux(HE(Chan(m, pol), COne, b))
        /\ last = pol /\ n = 0 /\ moved = "start"
Step == /\ n < MaxLayers
        /\ \E m \in Media :
              LET g == ThroughC(Chan(m, last), fields) IN
              /\ fields' = g /\ flux' = Flux(g)
              /\ moved' = IF Medium(m).loss THEN "lossy" ELSE "lossless"
        /\ n' = n + 1 /\ last' = last
Next == Step
Spec == Init /\ [][Next]_vars
Bound == AbsF(fields[1][1]) + AbsF(fields[1][2]) + AbsF(fields[2][1]) + AbsF(fields[2][2]) < 20000000

Size(f) == AbsF(f[1][1]) + AbsF(f[1][2]) + AbsF(f[2][1]) + AbsF(f[2][2])
Tol(f) == 100 + Size(f) \div 10000
Ledger == [][ /\ moved' = "lossless" => AbsF(flux' - flux) <= Tol(fields')
              /\ moved' = "lossy" => flux' >= flux - Tol(fields') ]_vars
===============================================================================

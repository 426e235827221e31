--------------------------------- MODULE C12 ----------------------------------
(* Real-space sampling, exactly over GF(577). In the plane (one dimension, the  *)
(* two separate): a field with order m and Bloch wavevector kap/4 sampled as    *)
(* periodic inverse transform, tiled over cells, times the Bloch phase, equals  *)
(* the plane wave at every point of every cell. Along z: layers are appended    *)
(* with d and num samples each; invariants on the assembled z axis.             *)
EXTENDS Turn, TLC
CONSTANTS MaxPts, MaxCells, Depths, Nums, MaxLayers
VARIABLES n, cells, kap, m, stack, z0, zs
vars == <<n, cells, kap, m, stack, z0, zs>>
PlaneInit == n \in 1..MaxPts /\ 144 % n = 0 /\ cells \in 1..MaxCells /\ kap \in -3..3 /\ m \in -2..2
Init == PlaneInit /\ stack = <<>> /\ z0 = 0 /\ zs = <<>>
\* z in units of 1/12 of the unit of depth: num - 1 divides 12.
Samples(d, k) == [i \in 1..k |-> IF k = 1 THEN 0 ELSE (12 * d * (i - 1)) \div (k - 1)]
AddLayer == /\ Len(stack) < MaxLayers /\ n = 1 /\ cells = 1 /\ kap = 0 /\ m = 0
            /\ \E d \in Depths, k \in Nums :
                 /\ stack' = Append(stack, <<d, k>>)
                 /\ zs' = zs \o [i \in 1..k |-> 12 * z0 + Samples(d, k)[i]]
                 /\ z0' = z0 + d
            /\ UNCHANGED <<n, cells, kap, m>>
Spec == Init /\ [][AddLayer]_vars
Direct(i) == W((kap + 4 * m) * i * (144 \div n))
Tiled(i) == (W(4 * m * (i % n) * (144 \div n)) * W(kap * i * (144 \div n))) % PT
Plane == \A i \in 0..(cells * n - 1) : Tiled(i) = Direct(i)
Bloch == \A i \in 0..((cells - 1) * n - 1) : Direct(i + n) = (Direct(i) * W(144 * kap)) % PT

RECURSIVE SumN(_, _), SumD(_, _)
SumN(s, k) == IF k = 0 THEN 0 ELSE s[k][2] + SumN(s, k - 1)
SumD(s, k) == IF k = 0 THEN 0 ELSE s[k][1] + SumD(s, k - 1)
Ordered == \A i \in 1..(Len(zs) - 1) : zs[i] <= zs[i + 1]
Counted == Len(zs) = SumN(stack, Len(stack)) /\ z0 = SumD(stack, Len(stack))
Edges == \A k \in 1..Len(stack) : stack[k][2] > 0 =>
    /\ zs[SumN(stack, k - 1) + 1] = 12 * SumD(stack, k - 1)
    /\ stack[k][2] > 1 => zs[SumN(stack, k)] = 12 * SumD(stack, k)
===============================================================================

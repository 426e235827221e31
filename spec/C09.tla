--------------------------------- MODULE C09 ----------------------------------
(* Lattice geometry in exact integers. State: a lattice, a grid shape, a number *)
(* of cells, a Brillouin grid shape. Invariants: duality, tiling, Bloch cell.   *)
EXTENDS Lat, FiniteSets, TLC, Json

CONSTANTS Lats, Shapes, Cells, BGrids
VARIABLES lat, shape, cells, bz
vars == <<lat, shape, cells, bz>>
Init == lat \in Lats /\ shape \in Shapes /\ cells \in Cells /\ bz \in BGrids
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Dot(a, b) == a[1] * b[1] + a[2] * b[2]
U == <<lat[1], lat[2]>>
V == <<lat[3], lat[4]>>
\* Reciprocal vectors (times the cross product) are dual to the lattice vectors.
Dual == /\ Dot(RecU(lat), U) = Cross(lat) /\ Dot(RecV(lat), V) = Cross(lat)
        /\ Dot(RecU(lat), V) = 0 /\ Dot(RecV(lat), U) = 0
\* Grid point (a, b) of the supercell, times nx * ny.
Pt(a, b) == <<a * shape[2] * U[1] + b * shape[1] * V[1], a * shape[2] * U[2] + b * shape[1] * V[2]>>
Grid == (0..(shape[1] * cells[1] - 1)) \X (0..(shape[2] * cells[2] - 1))
\* Cell (m, n) is the first cell displaced by m U + n V, and points are distinct.
Tiling == /\ \A g \in Grid :
               LET m == g[1] \div shape[1]
                   n == g[2] \div shape[2]
                   i == g[1] % shape[1]
                   j == g[2] % shape[2]
                   d == shape[1] * shape[2] IN
               Pt(g[1], g[2]) = <<Pt(i, j)[1] + d * (m * U[1] + n * V[1]), Pt(i, j)[2] + d * (m * U[2] + n * V[2])>>
          /\ Cardinality({Pt(g[1], g[2]) : g \in Grid}) = Cardinality(Grid)
\* Brillouin centers in units of 1 / (2 n): -(n-1), ..., n-1 in steps of 2.
Ctr(n) == [i \in 1..n |-> 2 * i - 1 - n]
BZ == /\ \A i \in 1..bz[1] : Ctr(bz[1])[i] = -Ctr(bz[1])[bz[1] + 1 - i]
      /\ \A i \in 1..bz[1] : AbsI(Ctr(bz[1])[i]) < bz[1]
      /\ \A i \in 1..(bz[1] - 1) : Ctr(bz[1])[i + 1] - Ctr(bz[1])[i] = 2
Emit == PrintT("@SCN " \o ToJson([lat |-> lat, shape |-> shape, cells |-> cells, bz |-> bz]))
===============================================================================

--------------------------------- MODULE C16 ----------------------------------
(* Geometry of the absorbing border of an nx by ny grid with widths wx, wy.     *)
(* States: all small grids, widths and cells. Depth is counted in cells from    *)
(* the interior (0) to the boundary (the width); Source is the interior cell    *)
(* whose material is extended outward.                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxN, MaxW
VARIABLES nx, ny, wx, wy, cell
vars == <<nx, ny, wx, wy, cell>>
Valid(n, w) == n > 2 * w
Depth(i, n, w) == IF i < w THEN w - i ELSE IF i >= n - w THEN i - (n - w - 1) ELSE 0
Source(i, n, w) == IF i < w THEN w ELSE IF i >= n - w THEN n - w - 1 ELSE i
Init == nx \in 1..MaxN /\ ny \in 1..MaxN /\ wx \in 0..MaxW /\ wy \in 0..MaxW /\ cell = 0
Next == cell < nx - 1 /\ cell' = cell + 1 /\ UNCHANGED <<nx, ny, wx, wy>>
Spec == Init /\ [][Next]_vars
Mirror == Valid(nx, wx) => /\ Depth(cell, nx, wx) = Depth(nx - 1 - cell, nx, wx)
                           /\ Source(cell, nx, wx) = nx - 1 - Source(nx - 1 - cell, nx, wx)
Range == Valid(nx, wx) => /\ Depth(cell, nx, wx) \in 0..wx
                          /\ Depth(Source(cell, nx, wx), nx, wx) = 0
                          /\ (Depth(cell, nx, wx) = 0) <=> (Source(cell, nx, wx) = cell)
Nearest == Valid(nx, wx) => \A j \in 0..(nx - 1) : Depth(j, nx, wx) = 0 =>
              LET d(a, b) == IF a < b THEN b - a ELSE a - b IN
              d(cell, Source(cell, nx, wx)) <= d(cell, j) /\ d(cell, Source(cell, nx, wx)) = Depth(cell, nx, wx)
Ends == (Valid(nx, wx) /\ wx > 0) => Depth(0, nx, wx) = wx /\ Depth(nx - 1, nx, wx) = wx
Emit == cell = 0 => PrintT("@SCN " \o ToJson([nx |-> nx, ny |-> ny, wx |-> wx, wy |-> wy]))
===============================================================================

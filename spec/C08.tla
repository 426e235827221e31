--------------------------------- MODULE C08 ----------------------------------
(* Discrete Fourier analysis on an nx x ny grid, exact over GF(2521), which has *)
(* primitive roots of unity of every order up to 10. A state is one scenario:   *)
(* an expansion, a grid and an array layout; invariants are the transform       *)
(* theorems (on a basis of the data, hence for all data); Emit exports it.      *)
EXTENDS GF, TLC, Json, FiniteSets

CONSTANTS ExpIds, Extra, Layouts, DTypes

VARIABLES eid, nx, ny, layout, dtype
vars == <<eid, nx, ny, layout, dtype>>

Exps == <<
  << <<0, 0>> >>,
  << <<0, 0>>, <<1, 0>>, <<-1, 0>> >>,
  << <<0, 0>>, <<0, 1>>, <<0, -1>>, <<0, 2>>, <<0, -2>> >>,
  << <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>> >>,
  << <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, -1>>, <<1, -1>>, <<-1, 1>> >>,
  << <<0, 0>>, <<2, -1>>, <<1, 3>> >>,
  << <<1, 2>>, <<0, 0>>, <<-2, 0>>, <<0, -1>> >>,
  << <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-2, 0>>, <<3, 0>>, <<-3, 0>> >>,
  << <<0, 0>>, <<2, 1>>, <<-2, -1>>, <<1, -2>>, <<-1, 2>> >>,
  << <<-3, 1>>, <<0, 0>>, <<2, -3>>, <<1, 1>>, <<-1, 0>> >> >>

AbsV(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE m \in S : \A y \in S : y <= m
MinShape(E) == << 2 * MaxOf({AbsV(E[i][1]) : i \in 1..Len(E)}) + 1,
                  2 * MaxOf({AbsV(E[i][2]) : i \in 1..Len(E)}) + 1 >>

Init == /\ eid \in ExpIds
        /\ \E dx \in Extra, dy \in Extra :
             nx = MinShape(Exps[eid])[1] + dx /\ ny = MinShape(Exps[eid])[2] + dy
        /\ layout \in Layouts
        /\ dtype \in DTypes
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- transforms over GF(2521) ------------------------------------------------ *)
Gen == 17 \* a generator of the multiplicative group modulo 2521
Root(n) == Pw(Gen, 2520 \div n)
W(n, k) == Pw(Root(n), k % n)
\* Plane wave of order g at grid point (a, b).
Wave(g, a, b) == Ml(W(nx, g[1] * a), W(ny, g[2] * b))
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE Ad(f[n], SumF(f, n - 1))
\* Fourier coefficient at order g of the field f[a][b].
Coef(f(_, _), g) ==
    Ml(Iv(nx * ny), SumF([t \in 1..(nx * ny) |->
        LET a == (t - 1) \div ny
            b == (t - 1) % ny IN Ml(f(a, b), Wave(<<-g[1], -g[2]>>, a, b))], nx * ny))

E == Exps[eid]
Alias(g, h) == (g[1] - h[1]) % nx = 0 /\ (g[2] - h[2]) % ny = 0

\* Transform of a single plane wave of order g: one at g, zero at the other orders.
Orthogonal == \A i \in 1..Len(E) : \A j \in 1..Len(E) :
    LET f(a, b) == Wave(E[i], a, b) IN Coef(f, E[j]) = (IF i = j THEN 1 ELSE 0)
\* The minimum shape separates all orders of the expansion.
Separated == \A i, j \in 1..Len(E) : i # j => ~Alias(E[i], E[j])
\* Entry (i, j) of the convolution matrix of the order-d wave, applied to order j,
\* is the product of the waves.
Diff(i, j) == <<E[i][1] - E[j][1], E[i][2] - E[j][2]>>
Convolution == \A i, j \in 1..Len(E) :
    LET d == Diff(i, j)
        f(a, b) == Ml(Wave(d, a, b), Wave(E[j], a, b)) IN Coef(f, E[i]) = 1

Emit == PrintT("@SCN " \o ToJson([e |-> E, nx |-> nx, ny |-> ny, lay |-> layout, dt |-> dtype]))
===============================================================================

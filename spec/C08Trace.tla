------------------------------- MODULE C08Trace -------------------------------
(* Data are tables of Gaussian-integer coefficients: tab = list of              *)
(* <<gx, gy, re, im>>; observations are fixed point with 10^4 per unit.         *)
EXTENDS Stateless
CONSTANT Tol
U == 10000

RECURSIVE SumSel(_, _, _, _, _, _)
\* Sum of component c of the table entries aliasing order (gx, gy) on the grid.
SumSel(tab, gx, gy, nx, ny, c) ==
    IF tab = <<>> THEN 0
    ELSE (IF (tab[1][1] - gx) % nx = 0 /\ (tab[1][2] - gy) % ny = 0 THEN tab[1][c] ELSE 0)
         + SumSel(Tail(tab), gx, gy, nx, ny, c)

\* obs: interleaved (re, im) for orders E in sequence.
CoefsOk(e, tab, obs) ==
    /\ Len(obs) = 2 * Len(e.e)
    /\ \A i \in 1..Len(e.e) :
        /\ Near(obs[2 * i - 1], U * SumSel(tab, e.e[i][1], e.e[i][2], e.nx, e.ny, 3), Tol)
        /\ Near(obs[2 * i], U * SumSel(tab, e.e[i][1], e.e[i][2], e.nx, e.ny, 4), Tol)

\* obs: all nx*ny coefficients (row major) of the returned field.
FieldOk(e, y, obs) ==
    /\ Len(obs) = 2 * e.nx * e.ny
    /\ \A a \in 0..(e.nx - 1), b \in 0..(e.ny - 1) :
        LET k == a * e.ny + b
            tab == [i \in 1..Len(e.e) |-> <<e.e[i][1], e.e[i][2], y[2 * i - 1], y[2 * i]>>] IN
        /\ Near(obs[2 * k + 1], U * SumSel(tab, a, b, e.nx, e.ny, 3), Tol)
        /\ Near(obs[2 * k + 2], U * SumSel(tab, a, b, e.nx, e.ny, 4), Tol)

ConvOk(e, tab, obs) ==
    LET n == Len(e.e) IN
    /\ Len(obs) = 2 * n * n
    /\ \A i, j \in 1..n :
        LET k == 2 * ((i - 1) * n + j) - 1
            gx == e.e[i][1] - e.e[j][1]
            gy == e.e[i][2] - e.e[j][2] IN
        /\ Near(obs[k], U * SumSel(tab, gx, gy, e.nx, e.ny, 3), Tol)
        /\ Near(obs[k + 1], U * SumSel(tab, gx, gy, e.nx, e.ny, 4), Tol)

\* Integer convolution of a table with coefficients y at the orders of e.
RECURSIVE ConvSum(_, _, _, _, _)
ConvSum(e, tab, y, i, j) == \* <<re, im>> of order i, summing over orders j..n
    IF j > Len(e.e) THEN <<0, 0>>
    ELSE LET gx == e.e[i][1] - e.e[j][1]
             gy == e.e[i][2] - e.e[j][2]
             ar == SumSel(tab, gx, gy, e.nx, e.ny, 3)
             ai == SumSel(tab, gx, gy, e.nx, e.ny, 4)
             br == y[2 * j - 1]
             bi == y[2 * j]
             r == ConvSum(e, tab, y, i, j + 1)
         IN <<ar * br - ai * bi + r[1], ar * bi + ai * br + r[2]>>
ProductOk(e, tab, y, obs) == \A i \in 1..Len(e.e) :
    LET s == ConvSum(e, tab, y, i, 1) IN
    Near(obs[2 * i - 1], U * s[1], 8 * Tol) /\ Near(obs[2 * i], U * s[2], 8 * Tol)

AbsV(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE m \in S : \A y \in S : y <= m

Clauses(e) ==
    CASE e.ev = "fft"  -> [ shape |-> e.shape = e.want,
                            coef  |-> \A s \in 1..Len(e.obs) : CoefsOk(e, e.tab[s], e.obs[s]) ]
      [] e.ev = "ifft" -> [ shape |-> e.shape = e.want,
                            field |-> \A s \in 1..Len(e.obs) : FieldOk(e, e.y[s], e.obs[s]) ]
      [] e.ev = "trip" -> [ round_trip |-> \A s \in 1..Len(e.obs) : NearSeq(e.obs[s], [i \in 1..Len(e.y[s]) |-> U * e.y[s][i]], Tol) ]
      [] e.ev = "conv" -> [ shape  |-> e.shape = e.want,
                            matrix |-> \A s \in 1..Len(e.obs) : ConvOk(e, e.tab[s], e.obs[s]) ]
      [] e.ev = "product" -> [ product  |-> \A s \in 1..Len(e.obs) : ProductOk(e, e.tab[s], e.y[s], e.obs[s]),
                               realspace |-> \A s \in 1..Len(e.obs) : ProductOk(e, e.tab[s], e.y[s], e.real[s]) ]
      [] e.ev = "min"  -> [ min_shape |-> e.min = << 2 * MaxOf({AbsV(e.e[i][1]) : i \in 1..Len(e.e)}) + 1,
                                                     2 * MaxOf({AbsV(e.e[i][2]) : i \in 1..Len(e.e)}) + 1 >> ]
      [] e.ev = "dtype" -> [ dtype_independent |-> NearSeq(e.obs, e.ref, Tol) ]
      [] e.ev = "reject" -> [ rejects |-> e.raised ]

TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

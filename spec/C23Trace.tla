------------------------------- MODULE C23Trace -------------------------------
EXTENDS Stateless
M == INSTANCE C23 WITH Ns <- {}, Ks <- {}, solid <- <<0, 0>>, void <- <<0, 0>>, d <- 0
\* Rows <<ns, ks, nv, kv, density>> and the returned values, 10^6 per unit.
RowOk(r, re, im) == LET e == M!Eps(<<r[1], r[2]>>, <<r[3], r[4]>>, r[5]) IN
    Near(re, 100 * e[1], 30) /\ Near(im, 100 * e[2], 30)
Clauses(e) ==
    [ shape  |-> e.shape = e.want,
      values |-> /\ Len(e.re) = Len(e.rows) /\ Len(e.im) = Len(e.rows)
                 /\ \A i \in 1..Len(e.rows) : RowOk(e.rows[i], e.re[i], e.im[i]) ]
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

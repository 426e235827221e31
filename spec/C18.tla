--------------------------------- MODULE C18 ----------------------------------
(* Structures that vary in one direction only: an integer lattice L = <<u, v>>  *)
(* and a pattern on an N x N grid that depends on a i + b j mod N.  Operations  *)
(* change lattice and pattern; t is the interface direction carried along as a  *)
(* vector.  Invariants: t stays parallel to b u - a v (the line on which        *)
(* a i + b j is constant), orthogonal to the gradient a u* + b v* (dual basis), *)
(* and the pattern obtained by moving grid points is the pattern of the new     *)
(* (a, b): the direction law that the trace specification demands of the code.  *)
EXTENDS C18Ops, TLC, Json
CONSTANTS N, MaxOps, Starts, Emitting
VARIABLES L, n, t, pat, cnt
vars == <<L, n, t, pat, cnt>>
Pts == (0..N - 1) \X (0..N - 1)
Level(a, b) == [p \in Pts |-> (a * p[1] + b * p[2]) % N]
Line(l, m) == <<m[2] * l[1][1] - m[1] * l[2][1], m[2] * l[1][2] - m[1] * l[2][2]>>
Grad(l, m) == <<m[1] * l[2][2] - m[2] * l[1][2], -(m[1] * l[2][1]) + m[2] * l[1][1]>>   \* times the cell area
Cross2(x, y) == x[1] * y[2] - x[2] * y[1]
Dot2(x, y) == x[1] * y[1] + x[2] * y[2]
Init == \E s \in Starts : L = s[1] /\ n = s[2] /\ t = Line(s[1], s[2]) /\ pat = Level(s[2][1], s[2][2]) /\ cnt = 0
Quarter(x) == <<-x[2], x[1]>>
Mir(x) == <<-x[1], x[2]>>
Pyth(x) == <<3 * x[1] - 4 * x[2], 4 * x[1] + 3 * x[2]>>    \* rotation with scale five
Neg(x) == <<-x[1], -x[2]>>
Moved(o) == [p \in Pts |-> pat[Source([op |-> o], p, N, N)]]
Step(l2, n2, t2, p2) == cnt < MaxOps /\ cnt' = cnt + 1 /\ L' = l2 /\ n' = n2 /\ t' = t2 /\ pat' = p2
Small == \A i, j \in 1..2 : L[i][j] \in -40..40
Next == Small /\ (
        \/ Step(<<Quarter(L[1]), Quarter(L[2])>>, n, Quarter(t), pat)
        \/ Step(<<Mir(L[1]), Mir(L[2])>>, n, Mir(t), pat)
        \/ Step(<<Pyth(L[1]), Pyth(L[2])>>, n, Pyth(t), pat)
        \/ Step(<<L[2], L[1]>>, <<n[2], n[1]>>, t, Moved("swap"))
        \/ Step(<<Neg(L[1]), L[2]>>, <<-n[1], n[2]>>, t, Moved("negu"))
        \/ Step(<<L[1], Neg(L[2])>>, <<n[1], -n[2]>>, t, Moved("negv"))
        \/ Step(L, <<-n[1], -n[2]>>, t, Moved("half"))
        \/ Step(<<L[1], <<L[2][1] + L[1][1], L[2][2] + L[1][2]>> >>, <<n[1], n[2] + n[1]>>, t, [p \in Pts |-> pat[<<(p[1] + p[2]) % N, p[2]>>]]) )
Spec == Init /\ [][Next]_vars
Tangent == Cross2(t, Line(L, n)) = 0
Orthogonal == Dot2(t, Grad(L, n)) = 0
NonZero == t # <<0, 0>>
LevelSet == pat = Level(n[1], n[2])
Emit == ~Emitting \/ cnt < MaxOps \/ PrintT("@SCN " \o ToJson([L |-> L, n |-> n]))
===============================================================================

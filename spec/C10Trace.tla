------------------------------- MODULE C10Trace -------------------------------
(* "desc": one description of the scenario's material solved by the code; all   *)
(* descriptions with the same denotation must give the same modes, matrices and *)
(* scattering.  "fourier": one entry of a returned layer matrix against the     *)
(* Fourier sum over the given array, evaluated here.                            *)
EXTENDS TraceKit, C10Ops, Fix
CONSTANT Tol
VARIABLES ln, sid, seen
vars == <<ln, sid, seen>>
TwoPi == 6283185
Half(r, n) == IF 2 * r > n THEN r - n ELSE r
Rot(num, den) == CExp(<<0, FMul(TwoPi, FDiv(Half(num % den, den) * 1000, den * 1000))>>)
\* Sum over the grid of value times exp(-2 pi i (m i / nx + n j / ny)), divided by the number of points.
RECURSIVE Sum2(_, _)
Sum2(e, k) == IF k = 0 THEN CZero ELSE
    LET i == (k - 1) \div e.ny
        j == (k - 1) % e.ny
    IN CAdd(Sum2(e, k - 1), CMul(e.arr[k], CMul(Rot(-(e.m * i), e.nx), Rot(-(e.n * j), e.ny))))
Mean(z, n) == << z[1] \div n, z[2] \div n >>
FourierClauses(e) == [ entry |-> CNear(Mean(Sum2(e, e.nx * e.ny), e.nx * e.ny), e.got, 200) ]

Prev(e) == {v \in seen : v.key = <<e.kind, Denote(e.kind, e.desc)>>}
Agrees(v, e) == /\ DOMAIN v.vals = DOMAIN e.vals
                /\ \A f \in DOMAIN e.vals : NearSeq(v.vals[f], e.vals[f], Tol)
DescClauses(e) ==
    LET p == IF e.sid = sid THEN Prev(e) ELSE {} IN
    [ admissible |-> Admissible(e.kind, e.desc),
      decaying |-> \A i \in 1..Len(e.imq) : e.imq[i] >= 0 /\ e.imq[i] < 2000000000,
      finite |-> \A f \in DOMAIN e.vals : Finite(e.vals[f]),
      modes |-> \A v \in p : NearSeq(v.vals.modes, e.vals.modes, Tol),
      matrices |-> \A v \in p : NearSeq(v.vals.mats, e.vals.mats, Tol),
      scattering |-> \A v \in p : NearSeq(v.vals.smat, e.vals.smat, Tol) ]
Clauses(e) == CASE e.ev = "desc" -> DescClauses(e)
                [] e.ev = "fourier" -> FourierClauses(e)
                [] e.ev = "raised" -> [no_exception |-> FALSE]
Step == LET e == Trace[ln]
            old == IF e.sid = sid THEN seen ELSE {} IN
    /\ ln <= Len(Trace)
    /\ Report(ln, Failing(Clauses(e)))
    /\ ln' = ln + 1
    /\ sid' = e.sid
    /\ seen' = IF e.ev = "desc" /\ ~(\E v \in old : v.key = <<e.kind, Denote(e.kind, e.desc)>>)
               THEN old \cup {[key |-> <<e.kind, Denote(e.kind, e.desc)>>, vals |-> e.vals]} ELSE old
TraceInit == ln = 1 /\ sid = -1 /\ seen = {}
TraceSpec == TraceInit /\ [][Step]_vars
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

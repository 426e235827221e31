------------------------------- MODULE C14Trace -------------------------------
(* Walks through the layers of a stack with a source after layer E.split. State:*)
(* tangential fields at the end of the previous layer. The jump at the source   *)
(* is also evaluated here order by order ("jump"), and the Fourier coefficients *)
(* of point and Gaussian sources ("coef").                                      *)
EXTENDS TraceKit, Fix
CONSTANT Tol

VARIABLES ln, prev, count
vars == <<ln, prev, count>>
E == Trace[ln]

Plus(s, t) == [i \in 1..Len(s) |-> s[i] + t[i]]
LayerClauses ==
    [ order      |-> E.index = count + 1,
      shape      |-> E.ashape = E.want /\ E.bshape = E.want,
      finite     |-> Finite(E.startf) /\ Finite(E.endf),
      outside0   |-> E.index # 1 \/ AllNear0(E.a, Tol),
      outsideN   |-> E.index # E.total \/ AllNear0(E.b, Tol),
      continuity |-> E.index = 1 \/ E.index = E.split + 1 \/ NearSeq(E.startf, prev, Tol),
      source     |-> E.index # E.split + 1 \/ NearSeq(E.startf, Plus(prev, E.jump), Tol) ]
\* The six amplitudes returned directly are those of the layers they are named after.
SixClauses == [i \in DOMAIN E.six |-> NearSeq(E.six[i][1], E.six[i][2], Tol)]

Small(z, t) == AbsF(z[1]) <= t /\ AbsF(z[2]) <= t
RECURSIVE DotC(_, _, _)
DotC(r, v, n) == IF n = 0 THEN CZero ELSE CAdd(CMul(r[n], v[n]), DotC(r, v, n - 1))
JumpClauses ==
    LET pz == DotC(E.eta, E.jz, Len(E.jz))
        t == 60 * Len(E.jz) + 300 IN
    [ hx |-> Small(CSub(CSub(E.after.hx, E.before.hx), E.jy), t),
      hy |-> Small(CAdd(CSub(E.after.hy, E.before.hy), E.jx), t),
      ex |-> Small(CSub(CScale(E.w, CSub(E.after.ex, E.before.ex)), CScale(E.kx, pz)), 4 * t),
      ey |-> Small(CSub(CScale(E.w, CSub(E.after.ey, E.before.ey)), CScale(E.ky, pz)), 4 * t) ]

Sigma == FDiv(E.fwhm, 2354820)
CoefClauses ==
    LET ph == CExp(<<0, -(FMul(E.kx, E.x) + FMul(E.ky, E.y))>>)
        roll == CExp(<<-(FMul(FMul(Sigma, Sigma), FMul(E.kx, E.kx) + FMul(E.ky, E.ky)) \div 2), 0>>) IN
    [ dirac |-> CNear(E.dirac, ph, 120),
      gaussian |-> CNear(E.gauss, CMul(roll, ph), 160),
      shape |-> E.dshape = E.want /\ E.gshape = E.want ]

Clauses == CASE E.ev = "raised" -> [no_exception |-> FALSE]
             [] E.ev = "layer" -> LayerClauses
             [] E.ev = "six" -> SixClauses
             [] E.ev = "jump" -> JumpClauses
             [] E.ev = "coef" -> CoefClauses

Init == ln = 1 /\ prev = <<>> /\ count = 0
Next == /\ ln <= Len(Trace)
        /\ Report(ln, Failing(Clauses))
        /\ prev' = IF E.ev = "layer" THEN E.endf ELSE prev
        /\ count' = IF E.ev = "layer" THEN (IF E.index = E.total THEN 0 ELSE E.index)
                    ELSE IF E.ev = "raised" THEN 0 ELSE count
        /\ ln' = ln + 1
TraceSpec == Init /\ [][Next]_vars
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

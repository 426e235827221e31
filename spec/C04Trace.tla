------------------------------- MODULE C04Trace -------------------------------
(* Walks through the layers of a stack as recorded. The state carries the       *)
(* tangential fields at the end of the previous layer. Fingerprints: fixed      *)
(* point, 10^7 per unit (patterned); "chan" events: exact planar solution.      *)
EXTENDS TraceKit, Planar
CONSTANT Tol

VARIABLES ln, prev, count
vars == <<ln, prev, count>>
E == Trace[ln]

LayerClauses ==
    [ order      |-> E.index = count + 1,
      shape      |-> E.shape = E.want,
      reference  |-> NearSeq(E.a, E.refa, Tol) /\ NearSeq(E.b, E.refb, Tol),
      incident0  |-> E.index # 1 \/ NearSeq(E.a, E.inc0, Tol),
      incidentN  |-> E.index # E.total \/ NearSeq(E.b, E.incN, Tol),
      outgoing0  |-> E.index # 1 \/ NearSeq(E.b, E.out0, Tol),
      outgoingN  |-> E.index # E.total \/ NearSeq(E.a, E.outN, Tol),
      continuity |-> E.index = 1 \/ NearSeq(E.startf, prev, Tol),
      finite     |-> Finite(E.a) /\ Finite(E.b) /\ Finite(E.startf) /\ Finite(E.endf) ]

PropClauses ==
    [ additive |-> NearSeq(E.two, E.one, Tol),
      zero     |-> NearSeq(E.zero, E.amp, Tol),
      inverse  |-> NearSeq(E.back, E.amp, Tol),
      coloc_f  |-> NearSeq(E.cf, E.pf, Tol),
      coloc_b  |-> NearSeq(E.cb, E.pb, Tol),
      coloc_0  |-> NearSeq(E.cf0, E.f, Tol) /\ NearSeq(E.cbd, E.b, Tol),
      coloc_after  |-> NearSeq(E.after, E.pafter, 4 * Tol),
      coloc_before |-> NearSeq(E.before, E.pbefore, 4 * Tol) ]

(* Exact interior fields of a homogeneous stack, one channel.                   *)
Chans == [i \in 1..Len(E.layers) |-> QZ(E.layers[i], E.pol, E.w, E.k)]
\* <<a_i, b_i>> of layer i for unit transmitted amplitude in the last layer.
InnerBack(cs, i) == IF i = Len(cs) THEN <<COne, CZero>>
    ELSE LET h == BackFields(SubSeq(cs, i, Len(cs))) IN
         <<CMul(FwdC(cs[i], h), InvPhase(cs[i], cs[i].d)), BwdC(cs[i], h)>>
\* Observed per layer: <<H, E>> at its start, then at its end. Seen from the other
\* side, E changes sign and start and end are exchanged.
Tolerance(v) == 300 + (AbsF(v[1]) + AbsF(v[2])) \div 2000
FieldsNear(o, h, e) == CNear(o[1], h, Tolerance(h)) /\ CNear(o[2], e, Tolerance(e))
ChanOk(obs, flip) ==
    LET cs == IF flip THEN RevC(Chans) ELSE Chans
        n == Len(cs)
        nrm == InnerBack(cs, 1)[1] IN
    \A i \in 1..n :
        LET r == InnerBack(cs, i)
            a == CDiv(r[1], nrm)
            b == CDiv(r[2], nrm)
            ph == Phase(cs[i], cs[i].d)
            s == HE(cs[i], a, CMul(ph, b))
            t == HE(cs[i], CMul(ph, a), b)
            o == IF flip THEN obs[n + 1 - i] ELSE obs[i]
            u == IF flip THEN <<o[3], CNeg(o[4]), o[1], CNeg(o[2])>> ELSE o IN
        FieldsNear(<<u[1], u[2]>>, s[1], s[2]) /\ FieldsNear(<<u[3], u[4]>>, t[1], t[2])
ChanClauses == [ exact_from_start |-> ChanOk(E.fromstart, FALSE),
                 exact_from_end   |-> ChanOk(E.fromend, TRUE) ]

Clauses == CASE E.ev = "raised" -> [no_exception |-> FALSE]
             [] E.ev = "layer" -> LayerClauses
             [] E.ev = "prop"  -> PropClauses
             [] E.ev = "chan"  -> ChanClauses

Init == ln = 1 /\ prev = <<>> /\ count = 0
Next == /\ ln <= Len(Trace)
        /\ Report(ln, Failing(Clauses))
        /\ prev' = IF E.ev = "layer" THEN E.endf ELSE prev
        /\ count' = IF E.ev = "layer" THEN (IF E.index = E.total THEN 0 ELSE E.index)
                    ELSE IF E.ev = "raised" THEN 0 ELSE count
        /\ ln' = ln + 1
TraceSpec == Init /\ [][Next]_vars
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

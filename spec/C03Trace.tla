------------------------------- MODULE C03Trace -------------------------------
(* The ledger as recorded: planes of one stack in order of depth. The state      *)
(* carries the net flux (one entry per batch element and amplitude column) at    *)
(* the previous plane of the walk. Flux is normalised by the largest |E||H| of   *)
(* the stack, fixed point 10^8.                                                  *)
EXTENDS TraceKit
CONSTANT Tol
VARIABLES ln, prev
vars == <<ln, prev>>
E == Trace[ln]

NotMore(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Abs(s[i]) < 1000000000 /\ s[i] <= t[i] + Tol
PlaneClauses ==
    [ finite      |-> Finite(E.net),
      functions   |-> NearSeq(E.net, E.netdir, Tol),
      fields      |-> NearSeq(E.net, E.netfield, Tol),
      interface   |-> E.from # "interface" \/ NearSeq(E.net, prev, Tol),
      lossless    |-> E.from # "lossless" \/ NearSeq(E.net, prev, Tol),
      passive     |-> E.from # "lossy" \/ NotMore(E.net, prev) ]
BalanceClauses ==
    [ conserved |-> ~E.lossless \/ NearSeq(E.incoming, E.outgoing, Tol),
      passive   |-> NotMore(E.outgoing, E.incoming),
      finite    |-> Finite(E.incoming) /\ Finite(E.outgoing) ]
Clauses == CASE E.ev = "raised" -> [no_exception |-> FALSE]
             [] E.ev = "plane" -> PlaneClauses
             [] E.ev = "balance" -> BalanceClauses

Init == ln = 1 /\ prev = <<>>
Next == /\ ln <= Len(Trace)
        /\ Report(ln, Failing(Clauses))
        /\ prev' = IF E.ev = "plane" THEN E.net ELSE <<>>
        /\ ln' = ln + 1
TraceSpec == Init /\ [][Next]_vars
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

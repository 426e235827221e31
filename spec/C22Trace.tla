------------------------------- MODULE C22Trace -------------------------------
(* Observed acceptance or rejection against the domain predicates.              *)
EXTENDS Stateless, C22Ops
Clauses(e) ==
    CASE e.ev = "case" -> [ invalid_is_rejected |-> Valid(e) \/ e.raised, valid_is_accepted |-> ~Valid(e) \/ ~e.raised,
                            finite |-> e.raised \/ ~Valid(e) \/ e.finite ]
      [] e.ev = "axes" -> [ raises |-> e.raised = ~AxesOk(e.axes, e.n),
                            value |-> e.raised \/ ~AxesOk(e.axes, e.n) \/ e.out = [i \in 1..Len(e.axes) |-> Abs0(e.axes[i], e.n)] ]
      [] e.ev = "compat" -> [ value |-> e.out = Compatible(e.l) ]
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

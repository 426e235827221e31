------------------------------- MODULE Stateless ------------------------------
(* Trace walking for events that are judged one by one: the extending module    *)
(* defines Clauses(e) (a function clause name -> holds).                        *)
EXTENDS TraceKit
VARIABLE ln
Walk(Clauses(_)) ==
    /\ ln <= Len(Trace)
    /\ Report(ln, Failing(IF Trace[ln].ev = "raised" THEN [no_exception |-> FALSE] ELSE Clauses(Trace[ln])))
    /\ ln' = ln + 1
WalkInit == ln = 1
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

------------------------------- MODULE C01Trace -------------------------------
(* Validates recorded histories of scattering-matrix operations.                *)
(* Event "op": o (operation record), den (what the harness evaluated as the     *)
(* reference), fp (fingerprint of the four blocks), ref (same fingerprint of    *)
(* the dense solution of the stack), sl/el (layer numbers recognised as first   *)
(* and last), st/et (thickness numbers recognised), shape/refshape.             *)
EXTENDS TraceKit, C01Ops

CONSTANT Tol

VARIABLES ln, pool
vars == <<ln, pool>>

E == Trace[ln]
Start == Has(E, "o") /\ E.first

Den == DenOf(pool, E.o)

Clauses ==
    IF E.ev = "raised" THEN [no_exception |-> FALSE]
    ELSE LET d == Den IN
      [ denotation  |-> d = E.den,
        blocks      |-> NearSeq(E.fp, E.ref, Tol) /\ Finite(E.fp),
        shape       |-> E.shape = E.refshape,
        start_layer |-> E.sl = d[1][1],
        end_layer   |-> E.el = d[Len(d)][1],
        start_thick |-> E.st = d[1][2],
        end_thick   |-> E.et = d[Len(d)][2] ]

Init == ln = 1 /\ pool = <<>>
Reset == E.ev = "begin" /\ pool' = <<>> /\ ln' = ln + 1
Step == /\ E.ev # "begin"
        /\ Report(ln, Failing(Clauses))
        /\ pool' = IF E.ev = "op" THEN Append(pool, E.den) ELSE pool
        /\ ln' = ln + 1
Next == ln <= Len(Trace) /\ (Reset \/ Step)
TraceSpec == Init /\ [][Next]_vars
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

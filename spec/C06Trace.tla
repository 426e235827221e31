------------------------------- MODULE C06Trace -------------------------------
(* One event per operation and output: batch shapes of the inputs, the recorded *)
(* value per batch index, and the values of the single calls, each labelled by  *)
(* the input indices it used.  The specification decides which single call      *)
(* belongs to which index.                                                      *)
EXTENDS Stateless, Bcast
CONSTANT Tol
\* All indices below a shape, without building large function sets.
RECURSIVE Below(_, _)
Below(s, k) == IF k = 0 THEN {<<>>} ELSE {Append(ix, i) : ix \in Below(s, k - 1), i \in 0..(s[k] - 1)}
Single(e, at) == LET c == {j \in 1..Len(e.singles) : e.singles[j].at = at} IN e.singles[CHOOSE j \in c : TRUE].v
OpClauses(e) ==
    LET full == BroadcastAll(e.ins, Len(e.ins))
        fits == Len(e.out) <= Len(full) /\ Broadcast(e.out, full) = full
        At(ix) == [i \in 1..Len(e.ins) |-> Project(ix, e.ins[i])]
        Got(ix) == e.data[Flat(Project(ix, e.out), e.out, Len(e.out)) + 1]
    IN [ batch_shape |-> fits,
         data_shape |-> e.dshape = e.sshape,
         element |-> fits => \A ix \in Below(full, Len(full)) : NearSeq(Got(ix), Single(e, At(ix)), Tol) ]
Clauses(e) == OpClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

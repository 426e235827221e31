------------------------------- MODULE C21Trace -------------------------------
(* Recorded histories against the cache model: state "cache" holds the keys     *)
(* seen in the current history.  "call": value and whether the call compiled.   *)
(* "tree": objects flattened and rebuilt, leaves unchanged and doubled.         *)
(* "key": equality and hash of two tree structures.                             *)
(* "jit": values of compiled against uncompiled functions.                      *)
EXTENDS TraceKit
CONSTANT Tol
VARIABLES ln, cache, cur
Key(e) == <<e.fn, e.static, e.sig>>
Known(e) == cur = e.sid /\ Key(e) \in cache
Doubled(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(b[i], 2 * a[i], 2)
Clauses(e) ==
    CASE e.ev = "raised" -> [no_exception |-> FALSE]
      [] e.ev = "call" -> [ value |-> NearSeq(e.out, e.ref, Tol), compiles_for_new_keys_only |-> e.traced = ~Known(e) ]
      [] e.ev = "tree" -> [ same |-> e.after = e.before, static |-> e.static_after = e.static_before, type |-> e.kind_after = e.kind,
                            each_leaf_once |-> \A f \in DOMAIN e.before : Doubled(e.before[f], e.doubled[f]),
                            structure |-> e.same_structure ]
      [] e.ev = "key" -> [ by_value |-> e.equal = (e.a = e.b), hash |-> e.equal => e.same_hash ]
      [] e.ev = "jit" -> [ value |-> NearSeq(e.out, e.ref, Tol), shape |-> e.shape = e.shape_ref ]
TraceInit == ln = 1 /\ cache = {} /\ cur = -1
TraceNext ==
    /\ ln <= Len(Trace)
    /\ Report(ln, Failing(Clauses(Trace[ln])))
    /\ LET e == Trace[ln] IN
       /\ cache' = (IF cur = e.sid THEN cache ELSE {}) \cup (IF e.ev = "call" THEN {Key(e)} ELSE {})
       /\ cur' = e.sid
    /\ ln' = ln + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ln, cache, cur>>
TraceDone == Done(TLCGet("stats").diameter - 1)
===============================================================================

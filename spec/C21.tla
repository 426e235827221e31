--------------------------------- MODULE C21 ----------------------------------
(* A compiled function with a cache keyed by the static parts of its arguments  *)
(* (expansion, formulation) and by array signatures.  A cache entry remembers   *)
(* the static value it was compiled for.  Lookup goes through a hash (any       *)
(* function, chosen initially: collisions allowed) and equality by value.       *)
(* Invariants: every call returns what the uncompiled function returns for its  *)
(* own arguments, an entry exists per distinct key, and a call compiles exactly *)
(* when its key is new - for every history of calls.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Expansions, Forms, Sigs, Values, MaxCalls, Emitting
VARIABLES hash, cache, hist, out
vars == <<hash, cache, hist, out>>
Keys == Expansions \X Forms \X Sigs
Init == /\ hash \in (IF Emitting THEN {[e \in Expansions |-> 0]} ELSE [Expansions -> 0..1])
        /\ cache = {}
        /\ hist = <<>>
        /\ out = <<>>
\* Symbolic result of the uncompiled function: everything the result may depend on.
Plain(e, f, s, a) == <<e, f, s, a>>
Match(k) == {c \in cache : hash[c[1]] = hash[k[1]] /\ c = k}
Call(e, f, s, a) ==
    LET k == <<e, f, s>>
        m == Match(k)
        entry == IF m = {} THEN k ELSE CHOOSE c \in m : TRUE
    IN /\ Len(hist) < MaxCalls
       /\ cache' = cache \cup {k}
       /\ out' = [res |-> Plain(entry[1], entry[2], entry[3], a), want |-> Plain(e, f, s, a), compiled |-> m = {}, new |-> k \notin cache]
       /\ hist' = Append(hist, [exp |-> e, form |-> f, sig |-> s, val |-> a])
       /\ UNCHANGED hash
Next == \E e \in Expansions, f \in Forms, s \in Sigs, a \in Values : Call(e, f, s, a)
Spec == Init /\ [][Next]_vars
SameAsPlain == out # <<>> => out.res = out.want
CompilesOnce == out # <<>> => out.compiled = out.new
CacheKeys == cache = {<<h.exp, h.form, h.sig>> : h \in {hist[i] : i \in 1..Len(hist)}}
Emit == ~Emitting \/ Len(hist) < MaxCalls \/ PrintT("@SCN " \o ToJson([hist |-> hist]))
===============================================================================

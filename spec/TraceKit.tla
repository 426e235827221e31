------------------------------- MODULE TraceKit -------------------------------
(* Reading a recorded trace, total verdicts per event, fixed-point helpers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)

NANV == 2100000000

Abs(x) == IF x < 0 THEN -x ELSE x

\* |a - b| <= tol without leaving 32 bits (values are clipped to +-2e9).
Near(a, b, tol) ==
    IF (a > 1000000000) \/ (a < -1000000000) \/ (b > 1000000000) \/ (b < -1000000000)
    THEN a = b /\ Abs(a) < 2000000000
    ELSE Abs(a - b) <= tol

\* Elementwise Near for sequences of equal length.
NearSeq(s, t, tol) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)

Finite(s) == \A i \in 1..Len(s) : Abs(s[i]) < 2000000000
AllNear0(s, tol) == \A i \in 1..Len(s) : Near(s[i], 0, tol)

Has(e, f) == f \in DOMAIN e

\* A set of clause names that fail, from a function clause -> holds.
Failing(c) == {k \in DOMAIN c : ~c[k]}

Report(line, fs) ==
    IF fs = {} THEN TRUE
    ELSE PrintT("@FAIL " \o ToJson([line |-> line, clauses |-> fs]))

Done(n) == PrintT("@DONE " \o ToString(n))
===============================================================================

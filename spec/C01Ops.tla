-------------------------------- MODULE C01Ops --------------------------------
(* Scattering-matrix operations as seen by a user: every object *denotes* an    *)
(* ordered list of (layer, thickness) pairs, and every operation acts on        *)
(* denotations as below. These operators are shared by the design model, the    *)
(* scenario generator and the trace specification.                              *)
EXTENDS Integers, Sequences

DenBuild(st) == st
DenAppend(st, l, t) == Append(st, <<l, t>>)
DenPrepend(st, l, t) == <<(<<l, t>>)>> \o st
DenStar(st, su) == st \o su
DenBefore(st, k) == SubSeq(st, 1, k)
DenAfter(st, k) == SubSeq(st, k, Len(st))
DenSetEnd(st, t) == [st EXCEPT ![Len(st)] = <<@[1], t>>]
DenSetStart(st, t) == [st EXCEPT ![1] = <<@[1], t>>]

\* Result of an operation record `o` on a pool of denotations.
DenOf(pool, o) ==
    CASE o.op = "build"    -> o.st
      [] o.op = "scan"     -> o.st
      [] o.op = "before"   -> DenBefore(o.st, o.k)
      [] o.op = "after"    -> DenAfter(o.st, o.k)
      [] o.op = "append"   -> DenAppend(pool[o.i], o.l, o.t)
      [] o.op = "prepend"  -> DenPrepend(pool[o.i], o.l, o.t)
      [] o.op = "star"     -> DenStar(pool[o.i], pool[o.j])
      [] o.op = "setend"   -> DenSetEnd(pool[o.i], o.t)
      [] o.op = "setstart" -> DenSetStart(pool[o.i], o.t)
===============================================================================

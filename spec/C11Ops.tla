-------------------------------- MODULE C11Ops --------------------------------
(* How each symmetry operation relabels scattering channels.  A label is        *)
(*   cur : the current order of each original channel (sequence of pairs)       *)
(*   ph  : sequence of phases, as lists of <<numerator, denominator>> turns     *)
(*   rot : orthogonal 2x2 matrix acting on the in-plane magnetic field          *)
(*   rev : TRUE when the stack is reversed (blocks 11<->22, 12<->21)            *)
(* Matrix arithmetic is a parameter, so that the exact model (finite field) and *)
(* the conformance check (fixed point) share the same laws.                     *)
EXTENDS Integers, Sequences
Order(o, g) ==
    CASE o.op = "swap"  -> <<g[2], g[1]>>
      [] o.op = "negu"  -> <<-g[1], g[2]>>
      [] o.op = "negv"  -> <<g[1], -g[2]>>
      [] o.op = "shear" -> <<g[1], g[2] + o.m * g[1]>>       \* v becomes v + m u
      [] o.op = "super" -> <<o.a * g[1], o.b * g[2]>>
      [] OTHER          -> g
\* Turns (fractions of a full phase) picked up by an order under a translation by <<i/nx, j/ny>>.
Turns(o, g) == IF o.op = "shift" THEN << <<-(g[1] * o.i), o.nx>>, <<-(g[2] * o.j), o.ny>> >> ELSE <<>>
Reverses(o) == o.op = "reverse"
\* Rotation of the in-plane magnetic field: cos, sin for "rot"; a mirror x -> -x keeps Hx and flips Hy.
Label0(orders) == [cur |-> orders, ph |-> [k \in 1..Len(orders) |-> <<>>], rots |-> <<>>, rev |-> FALSE]
Apply(l, o) == [ cur |-> [k \in 1..Len(l.cur) |-> Order(o, l.cur[k])],
                 ph |-> [k \in 1..Len(l.cur) |-> l.ph[k] \o Turns(o, l.cur[k])],
                 rots |-> IF o.op \in {"rot", "mirror"} THEN Append(l.rots, o) ELSE l.rots,
                 rev |-> IF Reverses(o) THEN ~l.rev ELSE l.rev ]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(l, ops, k) == IF k > Len(ops) THEN l ELSE ApplyAll(Apply(l, ops[k]), ops, k + 1)
===============================================================================

--------------------------------- MODULE C02 ----------------------------------
(* Homogeneous multilayers: each (order, polarization) is a scalar channel with *)
(* impedance Z and phase factor g^t per layer, modelled over GF(P). A behaviour *)
(* grows a stack layer by layer. Theorems: reciprocity, invariance under        *)
(* splitting a layer and under inserting zero-thickness layers, composition.    *)
EXTENDS GF, TLC, Json

CONSTANTS Layers, Thick, MaxLen

Z(l) == CASE l = 1 -> 5 [] l = 2 -> 11 [] l = 3 -> 1234 [] OTHER -> 77
G(l) == CASE l = 1 -> 3 [] l = 2 -> 19 [] l = 3 -> 321 [] OTHER -> 41
Ph(p) == Pw(G(p[1]), p[2])

\* Fields <<H, E>> at the end of the last-but-one layer ... walking to the start.
\* Amplitudes in a layer from the fields at its end: forward at end, backward at end.
Fwd(l, h) == Ml(Half, Ad(h[1], Ml(h[2], Iv(Z(l)))))
Bwd(l, h) == Ml(Half, Sb(h[1], Ml(h[2], Iv(Z(l)))))
\* Fields at the start of layer p from fields at its end.
Through(p, h) == LET a == Ml(Fwd(p[1], h), Iv(Ph(p)))
                     b == Ml(Bwd(p[1], h), Ph(p))
                 IN <<Ad(a, b), Ml(Z(p[1]), Sb(a, b))>>
RECURSIVE FieldsAfterFirst(_)
\* Fields at the start of the second layer of st when a_N = 1, b_N = 0.
FieldsAfterFirst(st) == IF Len(st) = 2 THEN <<1, Z(st[2][1])>>
    ELSE Through(st[2], FieldsAfterFirst(Tail(st)))
\* <<a_0, b_0>> for a_N = 1, b_N = 0.
Back(st) == IF Len(st) = 1 THEN <<1, 0>>
            ELSE LET h == FieldsAfterFirst(st) IN
                 <<Ml(Fwd(st[1][1], h), Iv(Ph(st[1]))), Bwd(st[1][1], h)>>
Rev(st) == [k \in 1..Len(st) |-> st[Len(st) + 1 - k]]
S11(st) == Iv(Back(st)[1])
S21(st) == Ml(Back(st)[2], S11(st))
S22(st) == S11(Rev(st))
S12(st) == S21(Rev(st))
Regular(st) == Back(st)[1] # 0 /\ Back(Rev(st))[1] # 0

VARIABLE stack
Init == \E l \in Layers, t \in Thick : stack = <<(<<l, t>>)>>
Grow == Len(stack) < MaxLen /\ \E l \in Layers, t \in Thick : stack' = Append(stack, <<l, t>>)
Next == Grow
Spec == Init /\ [][Next]_stack

Reciprocity == Regular(stack) =>
    Ml(S11(stack), Ml(Z(stack[Len(stack)][1]), Ph(stack[Len(stack)]))) = Ml(S22(stack), Ml(Z(stack[1][1]), Ph(stack[1])))
\* Splitting an interior layer.
Split == Len(stack) >= 3 => \A k \in 2..(Len(stack) - 1) : \A t \in 0..stack[k][2] :
    LET l == stack[k][1]
        st == SubSeq(stack, 1, k - 1) \o <<(<<l, t>>), (<<l, stack[k][2] - t>>)>> \o SubSeq(stack, k + 1, Len(stack))
    IN Back(st) = Back(stack)
\* A layer of zero thickness is invisible.
Absent == Len(stack) >= 2 => \A l \in Layers : \A k \in 1..(Len(stack) - 1) :
    LET st == SubSeq(stack, 1, k) \o <<(<<l, 0>>)>> \o SubSeq(stack, k + 1, Len(stack)) IN Back(st) = Back(stack)
\* Identical media transmit without reflection.
Matched == (\A k \in 1..Len(stack) : stack[k][1] = stack[1][1]) => Back(stack)[2] = 0
===============================================================================

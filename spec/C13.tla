--------------------------------- MODULE C13 ----------------------------------
(* Power flow as a bilinear form, over Gaussian integers (exact). One Fourier   *)
(* component, two modes: H = phi (a + b), E = A (a - b), flux Re(E conj H).     *)
(* States: all small mode tables and amplitudes; invariants: the decompositions *)
(* into forward/backward parts add up, scaling, and mode-wise assignment.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT R
G == (-R..R) \X (-R..R)
VARIABLES phi, am, a, b
vars == <<phi, am, a, b>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Mul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Con(x) == <<x[1], -x[2]>>
Dot(m, v) == Add(Mul(m[1], v[1]), Mul(m[2], v[2]))
Re2(x, y) == 2 * Mul(Con(x), y)[1]        \* 2 Re(conj(x) y)
\* Twice the flux, so that the halves of the cross terms stay integers.
Total(aa, bb) == Re2(Sub(Dot(am, aa), Dot(am, bb)), Add(Dot(phi, aa), Dot(phi, bb)))
Forward(aa, bb) == Re2(Dot(am, aa), Dot(phi, aa))
                   + Mul(Con(Dot(phi, bb)), Dot(am, aa))[1] - Mul(Con(Dot(am, bb)), Dot(phi, aa))[1]
Backward(aa, bb) == -Re2(Dot(am, bb), Dot(phi, bb))
                   + Mul(Con(Dot(phi, bb)), Dot(am, aa))[1] - Mul(Con(Dot(am, bb)), Dot(phi, aa))[1]
Z == <<0, 0>>
One(m) == [i \in 1..2 |-> IF i = m THEN <<1, 0>> ELSE Z]
ModeFlux(m) == Re2(am[m], phi[m])
Keep(v, P(_)) == [i \in 1..2 |-> IF P(i) THEN v[i] ELSE Z]
Part(aa, bb, sa, sb) == Mul(Con(Sub(Dot(am, aa), Dot(am, bb))), Add(Dot(phi, sa), Dot(phi, sb)))[1]
                        + Mul(Con(Add(Dot(phi, aa), Dot(phi, bb))), Sub(Dot(am, sa), Dot(am, sb)))[1]
Fw(i) == ModeFlux(i) > 0
Bw(i) == ModeFlux(i) <= 0
DirF(aa, bb) == Part(aa, bb, Keep(aa, Fw), Keep(bb, Bw))
DirB(aa, bb) == Part(aa, bb, Keep(aa, Bw), Keep(bb, Fw))

Init == phi \in [1..2 -> G] /\ am \in [1..2 -> G] /\ a = <<Z, Z>> /\ b = <<Z, Z>>
Excite == /\ a = <<Z, Z>> /\ b = <<Z, Z>>
          /\ a' \in {<<x, y>> : x \in G, y \in {<<1, 0>>, <<0, -1>>}}
          /\ b' \in {<<x, y>> : x \in {Z, <<1, 1>>}, y \in {Z, <<0, 1>>}}
          /\ UNCHANGED <<phi, am>>
Next == Excite
Spec == Init /\ [][Next]_vars
SumAmp == Forward(a, b) + Backward(a, b) = Total(a, b)
SumDir == DirF(a, b) + DirB(a, b) = Total(a, b)
OneMode == \A m \in 1..2 : /\ Forward(One(m), <<Z, Z>>) = ModeFlux(m)
                           /\ DirF(One(m), <<Z, Z>>) = (IF ModeFlux(m) > 0 THEN ModeFlux(m) ELSE 0)
                           /\ DirB(<<Z, Z>>, One(m)) = (IF ModeFlux(m) > 0 THEN -ModeFlux(m) ELSE 0)
Scale == LET c == <<1, 2>>
             s(v) == [i \in 1..2 |-> Mul(c, v[i])] IN Total(s(a), s(b)) = 5 * Total(a, b)
===============================================================================

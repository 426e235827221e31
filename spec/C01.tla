--------------------------------- MODULE C01 ----------------------------------
(* Design model of the scattering-matrix algebra over GF(P) with two modes per  *)
(* layer. `obj` is the representation an implementation keeps (four blocks plus *)
(* first and last layer and thickness), `den` the list of layers it stands for. *)
(* Invariant: the representation is a function of the denotation, computed      *)
(* independently through transfer matrices, whatever the history.               *)
EXTENDS GF, C01Ops, TLC

CONSTANTS Layers, Thick, MaxLen, OperandLen

\* Modes: q (diagonal), phi, omega_k; phase factor of thickness t is g^t.
Q(l)   == CASE l = 1 -> <<3, 7>>    [] l = 2 -> <<11, 5>>   [] OTHER -> <<13, 19>>
G(l)   == CASE l = 1 -> <<17, 23>>  [] l = 2 -> <<29, 31>>  [] OTHER -> <<37, 41>>
Phi(l) == CASE l = 1 -> <<1, 0, 0, 1>> [] l = 2 -> <<2, 5, 3, 11>> [] OTHER -> <<4, 1, 9, 7>>
Om(l)  == CASE l = 1 -> <<6, 2, 8, 10>> [] l = 2 -> <<5, 14, 3, 12>> [] OTHER -> <<9, 4, 22, 15>>

F(l, t) == MDiag(Pw(G(l)[1], t), Pw(G(l)[2], t))
Qm(l) == MDiag(Q(l)[1], Q(l)[2])
Psi(l) == MMul3(Om(l), Phi(l), MInv(Qm(l)))

(* ---- Denotation: transfer matrices ---------------------------------------- *)
\* (a, b) of layer l -> (a', b') of layer m, forward amplitudes at the start and
\* backward amplitudes at the end of their layer.
Hop(p, r) ==
    LET l == p[1]
        m == r[1]
        A == << MMul(Phi(l), F(l, p[2])), Phi(l), MMul(Psi(l), F(l, p[2])), MNeg(Psi(l)) >>
        hp == MScale(Half, MInv(Phi(m)))
        hs == MScale(Half, MInv(Psi(m)))
        fi == MInv(F(m, r[2]))
        Inv == << hp, hs, MMul(fi, hp), MNeg(MMul(fi, hs)) >>
    IN BMul(Inv, A)

RECURSIVE Transfer(_)
Transfer(st) == IF Len(st) = 1 THEN <<I2, Z2, Z2, I2>>
                ELSE BMul(Hop(st[Len(st) - 1], st[Len(st)]), Transfer(SubSeq(st, 1, Len(st) - 1)))

SOfT(T) == LET w == MInv(T[4]) IN
    << MSub(T[1], MMul3(T[2], w, T[3])), MMul(T[2], w), MNeg(MMul(w, T[3])), w >>

Regular(st) == \A k \in 1..Len(st) : \A m \in k..Len(st) : MDet(Transfer(SubSeq(st, k, m))[4]) # 0

Denote(st) == [s |-> SOfT(Transfer(st)), sl |-> st[1], el |-> st[Len(st)]]

(* ---- Representation: the recursions an implementation uses ----------------- *)
Extend(S, p, r) ==
    LET l == p[1]
        m == r[1]
        phit == MInv(MMul(Om(l), Phi(l)))
        t1 == MMul(MMul(Qm(l), phit), MMul3(Om(m), Phi(m), MInv(Qm(m))))
        t2 == MMul3(phit, Om(l), Phi(m))
        i11 == MScale(Half, MAdd(t1, t2))
        i12 == MScale(Half, MSub(t2, t1))
        f == F(l, p[2])
        g == F(m, r[2])
        w == MInv(MSub(i11, MMul3(f, S[2], i12)))
        n11 == MMul3(w, f, S[1])
        n12 == MMul3(w, MSub(MMul3(f, S[2], i11), i12), g)
    IN << n11, n12, MAdd(S[3], MMul3(S[4], i12, n11)), MAdd(MMul3(S[4], i12, n12), MMul3(S[4], i11, g)) >>

Flip(S) == <<S[4], S[3], S[2], S[1]>>
RepUnit(p) == [s |-> <<I2, Z2, Z2, I2>>, sl |-> p, el |-> p]
RepAppend(x, r) == [s |-> Extend(x.s, x.el, r), sl |-> x.sl, el |-> r]
RepPrepend(x, r) == [s |-> Flip(Extend(Flip(x.s), x.sl, r)), sl |-> r, el |-> x.el]

RECURSIVE RepBuild(_)
RepBuild(st) == IF Len(st) = 1 THEN RepUnit(st[1])
                ELSE RepAppend(RepBuild(SubSeq(st, 1, Len(st) - 1)), st[Len(st)])

RepStar(x, y) ==
    LET a == RepAppend(x, y.sl).s
        b == y.s
        w == MInv(MSub(I2, MMul(a[2], b[3])))
        v == MInv(MSub(I2, MMul(b[3], a[2])))
    IN [s |-> << MMul3(b[1], w, a[1]), MAdd(b[2], MMul(MMul(b[1], w), MMul(a[2], b[4]))),
                 MAdd(a[3], MMul(MMul(a[4], v), MMul(b[3], a[1]))), MMul3(a[4], v, b[4]) >>,
        sl |-> x.sl, el |-> y.el]

Rev(st) == [k \in 1..Len(st) |-> st[Len(st) + 1 - k]]
RepAfter(st, k) == LET r == RepBuild(SubSeq(Rev(st), 1, Len(st) + 1 - k)) IN
    [s |-> Flip(r.s), sl |-> r.el, el |-> r.sl]

RepSetEnd(x, t) == LET l == x.el[1]
                       d == MMul(MInv(F(l, x.el[2])), F(l, t)) IN
    [s |-> <<x.s[1], MMul(x.s[2], d), x.s[3], MMul(x.s[4], d)>>, sl |-> x.sl, el |-> <<l, t>>]
RepSetStart(x, t) == LET l == x.sl[1]
                         d == MMul(MInv(F(l, x.sl[2])), F(l, t)) IN
    [s |-> <<MMul(x.s[1], d), x.s[2], MMul(x.s[3], d), x.s[4]>>, sl |-> <<l, t>>, el |-> x.el]

(* ---- State machine ---------------------------------------------------------- *)
VARIABLES den, obj
vars == <<den, obj>>

Pairs == Layers \X Thick
Stacks(n) == UNION {[1..k -> Pairs] : k \in 1..n}
Operands == {st \in Stacks(OperandLen) : Regular(st)}

Init == \E st \in Stacks(2) : Regular(st) /\ den = st /\ obj = RepBuild(st)

Ok(st) == Len(st) <= MaxLen /\ Regular(st)
DoAppend == \E p \in Pairs : LET d == DenAppend(den, p[1], p[2]) IN
    Ok(d) /\ den' = d /\ obj' = RepAppend(obj, p)
DoPrepend == \E p \in Pairs : LET d == DenPrepend(den, p[1], p[2]) IN
    Ok(d) /\ den' = d /\ obj' = RepPrepend(obj, p)
DoStarL == \E st \in Operands : LET d == DenStar(den, st) IN
    Ok(d) /\ den' = d /\ obj' = RepStar(obj, RepBuild(st))
DoStarR == \E st \in Operands : LET d == DenStar(st, den) IN
    Ok(d) /\ den' = d /\ obj' = RepStar(RepBuild(st), obj)
DoSetEnd == \E t \in Thick : Len(den) > 1 /\ LET d == DenSetEnd(den, t) IN
    Ok(d) /\ den' = d /\ obj' = RepSetEnd(obj, t)
DoSetStart == \E t \in Thick : Len(den) > 1 /\ LET d == DenSetStart(den, t) IN
    Ok(d) /\ den' = d /\ obj' = RepSetStart(obj, t)
DoBefore == \E k \in 1..Len(den) : den' = DenBefore(den, k) /\ obj' = RepBuild(DenBefore(den, k))
DoAfter == \E k \in 1..Len(den) : den' = DenAfter(den, k) /\ obj' = RepAfter(den, k)
Next == DoAppend \/ DoPrepend \/ DoStarL \/ DoStarR \/ DoSetEnd \/ DoSetStart \/ DoBefore \/ DoAfter
Spec == Init /\ [][Next]_vars

Determined == obj = Denote(den)
\* Reversing the denotation flips the blocks.
Reversal == LET r == Denote(Rev(den)).s IN Flip(r) = obj.s
===============================================================================

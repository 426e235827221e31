------------------------------- MODULE C02Trace -------------------------------
(* Event "chan": w, k, layers (in the frame of the wavevector), s11 .. s22:     *)
(* 2x2 complex blocks in the (TE, TM) basis <<tete, tetm, tmte, tmtm>> each     *)
(* <<re, im>>; leak: largest coupling to other orders.                          *)
(* Event "circ": the same at normal incidence in the circular basis (1, i),     *)
(* (1, -i); layers carry the gyration g of permittivity and gm of permeability  *)
(* (xy = i g, yx = -i g), which splits them into e - g and e + g.               *)
EXTENDS Stateless, Planar
CONSTANT Tol

Split(L, sgn) == LET f(x, g) == IF sgn > 0 THEN CSub(x, g) ELSE CAdd(x, g) IN
    [e |-> [i \in 1..3 |-> f(L.e[1], L.g)], m |-> [i \in 1..3 |-> f(L.m[1], L.gm)], d |-> L.d]
Chans(e, pol) == IF e.ev = "circ"
    THEN [i \in 1..Len(e.layers) |-> QZ(Split(e.layers[i], IF pol = "te" THEN 1 ELSE -1), pol, e.w, 0)]
    ELSE [i \in 1..Len(e.layers) |-> QZ(e.layers[i], pol, e.w, e.k)]
Close(x, y) == CNear(x, y, Tol + (AbsF(y[1]) + AbsF(y[2])) \div 2000)

Clauses(e) ==
    LET te == Chans(e, "te")
        tm == Chans(e, "tm")
        fe == SPair(te)
        re == SPair(RevC(te))
        fm == SPair(tm)
        rm == SPair(RevC(tm))
    IN [ te_s11 |-> Close(e.s11[1], fe[1]), te_s21 |-> Close(e.s21[1], fe[2]),
         te_s22 |-> Close(e.s22[1], re[1]), te_s12 |-> Close(e.s12[1], re[2]),
         tm_s11 |-> Close(e.s11[4], fm[1]), tm_s21 |-> Close(e.s21[4], fm[2]),
         tm_s22 |-> Close(e.s22[4], rm[1]), tm_s12 |-> Close(e.s12[4], rm[2]),
         no_cross |-> \A s \in {e.s11, e.s12, e.s21, e.s22} : CNear(s[2], CZero, 20) /\ CNear(s[3], CZero, 20),
         decoupled |-> e.leak >= 0 /\ e.leak <= 5 ]

TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

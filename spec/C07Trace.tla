------------------------------- MODULE C07Trace -------------------------------
EXTENDS Stateless, Lat, SequencesExt

\* Event: lat, num, trunc, g (list of orders), isint (integer dtype).
Pairs(e) == {<<e.g[i][1], e.g[i][2]>> : i \in 1..Len(e.g)}

Common(e) ==
    LET s == Pairs(e) IN
    [ distinct  |-> Cardinality(s) = Len(e.g),
      zero      |-> Len(e.g) > 0 /\ e.g[1] = <<0, 0>>,
      symmetric |-> \A g \in s : <<-g[1], -g[2]>> \in s,
      sorted    |-> \A i \in 1..(Len(e.g) - 1) : Quad(e.lat, e.g[i]) <= Quad(e.lat, e.g[i + 1]),
      integer   |-> e.isint,
      num_terms |-> e.nt = Len(e.g) ]

Circ(e) ==
    LET s == Pairs(e) IN
    [ inside   |-> \A g \in s : ~SurelyOut(e.lat, e.num, g),
      complete |-> \A g \in Box(e.lat, e.num) : SurelyIn(e.lat, e.num, g) => g \in s ]

Para(e) ==
    LET s == Pairs(e)
        nu == CHOOSE m \in 0..Len(e.g) : (\A g \in s : AbsI(g[1]) <= m) /\ (m = 0 \/ \E g \in s : AbsI(g[1]) = m)
        nv == CHOOSE m \in 0..Len(e.g) : (\A g \in s : AbsI(g[2]) <= m) /\ (m = 0 \/ \E g \in s : AbsI(g[2]) = m)
        uu == UU(e.lat)
        vv == VV(e.lat)
    IN
    [ full_box |-> s = {<<i, j>> : i \in (-nu)..nu, j \in (-nv)..nv},
      side_u   |-> HalfOk(nu, RatioLo(vv, uu), RatioHi(vv, uu), e.num),
      side_v   |-> HalfOk(nv, RatioLo(uu, vv), RatioHi(uu, vv), e.num) ]

Clauses(e) == Common(e) @@ (IF e.trunc = "circular" THEN Circ(e) ELSE Para(e))

TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

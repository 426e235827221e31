---------------------------------- MODULE C22 ---------------------------------
(* All cases around the boundaries of the domains (one state per case), with    *)
(* theorems about the predicates and emission of the cases for replay.          *)
EXTENDS C22Ops, TLC, Json
CONSTANTS Emitting, Contracts
VARIABLES e
D == 1..3
AxVals(ndim) == (-(ndim + 1)..-3) \cup (0..(ndim - 3)) \cup {ndim}
Axs(ndim) == AxVals(ndim) \X AxVals(ndim)
Batches == {<<>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 3>>, <<2, 3>>}
Coords == {<<1>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<1, 2>>}
Terms(n) == UNION {{<<n>>}, {<<t, c>> : t \in (n - 1)..(n + 1), c \in 2..3}, {<<l, t, c>> : l \in 2..3, t \in (n - 1)..(n + 1), c \in {2}}}
Cases(c) ==
    CASE c = "axes" -> {[c |-> c, axes |-> a, n |-> n] : a \in UNION {[1..r -> -4..4] : r \in 1..3}, n \in 1..3}
      [] c = "compat" -> {[c |-> c, l |-> <<a, b, d>>] : a \in Shapes(0, 2, D), b \in Shapes(0, 2, D), d \in Shapes(0, 2, D)}
      [] c = "lattice" -> {[c |-> c, u |-> l \o <<x>>, v |-> l \o <<y>>] : l \in {<<>>, <<2>>, <<1, 3>>}, x \in D, y \in D}
      [] c = "expansion" -> {[c |-> c, s |-> s] : s \in Shapes(1, 3, D)}
      [] c = "bz" -> {[c |-> c, s |-> s] : s \in UNION {[1..r -> -1..3] : r \in 1..3}}
      [] c = "minshape" -> {[c |-> c, fn |-> f, g |-> <<a, b>>, sgn |-> g, s |-> <<2 * a + i, 2 * b + j>>] :
                               f \in {"fft", "fft_axes", "conv", "ifft", "grid", "iso", "general"}, a \in 0..2, b \in 0..2, g \in {-1, 1}, i \in 0..2, j \in 0..2}
      [] c = "ifft" -> {[c |-> c, t |-> t, s |-> s] : t \in 2..4, s \in {<<5>>, <<5, 5>>, <<5, 5, 1>>}}
      [] c = "eig" -> {[c |-> c, w |-> w, k |-> k \o <<l>>, u |-> u, v |-> v, p |-> p] : w \in Batches, k \in Batches, l \in {2, 3}, u \in {<<>>, <<2>>, <<3>>}, v \in {<<>>, <<2>>}, p \in Batches}
      [] c = "tensor" -> {[c |-> c, fn |-> f, i |-> i, base |-> b, s |-> s] : f \in {"general"}, i \in 0..9, b \in {<<1, 1>>, <<4, 5>>}, s \in {<<1, 1>>, <<4, 5>>, <<5, 4>>, <<2, 4, 5>>}}
                       \cup {[c |-> c, fn |-> "aniso", i |-> i, base |-> b, s |-> s] : i \in 0..4, b \in {<<1, 1>>, <<4, 5>>}, s \in {<<1, 1>>, <<4, 5>>, <<5, 4>>, <<2, 4, 5>>}}
      [] c = "amps" -> {r \in {[c |-> c, fn |-> f, a |-> a, b |-> b] : f \in {"propagate", "colocate", "flux", "directional", "fields", "layer3d"}, a \in Terms(2 * N), b \in Terms(2 * N)} : Compatible(<<r.a, r.b>>) => r.a = r.b}
      [] c = "modes" -> {r \in {[c |-> c, fn |-> f, i |-> i, a |-> a, b |-> b] : f \in {"grid", "coords"}, i \in 1..5, a \in Terms(N), b \in Terms(N)} : Compatible(<<r.a, r.b>>) => r.a = r.b}
      [] c = "lens" -> {[c |-> c, fn |-> f, l |-> l] : f \in {"stack", "interior", "scan"}, l \in [1..2 -> D]}
                       \cup {[c |-> c, fn |-> f, l |-> l] : f \in {"fields", "coords"}, l \in [1..4 -> D]} \cup {[c |-> c, fn |-> "auto", l |-> l] : l \in [1..3 -> D]}
      [] c = "location" -> {[c |-> c, fn |-> f, s |-> s, k |-> k] : f \in {"dirac", "gaussian"}, s \in Shapes(1, 3, D), k \in D}
      [] c = "dipole" -> {[c |-> c, fn |-> f, x |-> x, y |-> y, z |-> z] : f \in {"terms", "source"}, x \in {<<N>>, <<N, 1>>, <<N, 2>>, <<2, 1>>, <<1, N, 1>>},
                                                                          y \in {<<N>>, <<N, 1>>, <<N, 2>>, <<2, 1>>, <<1, N, 1>>}, z \in {<<N>>, <<N, 1>>, <<N, 2>>, <<2, 1>>, <<1, N, 1>>}}
      [] c = "part" -> UNION {{[c |-> c, attr |-> a, b |-> b, s |-> s] : s \in
                                  LET r == RefShape(a, b) IN {r, <<2>> \o r} \cup (IF r = <<>> THEN {<<3>>} ELSE {Tail(r), [r EXCEPT ![1] = 3 + r[1]], [r EXCEPT ![Len(r)] = 1 + r[Len(r)]], r \o <<2>>})
                                                             \cup (IF b = <<>> THEN {} ELSE {[r EXCEPT ![1] = 1], [r EXCEPT ![1] = 3]})} : a \in Attrs, b \in {<<>>, <<2>>}}
      [] c = "truncation" -> {[c |-> c, v |-> v] : v \in {"CIRCULAR", "PARALLELOGRAMIC", "none", "circular", "other"}}
      [] c = "pml" -> {[c |-> c, s |-> s, w |-> w] : s \in [1..2 -> 2..5], w \in [1..2 -> 0..3]}
      [] c = "same" -> {[c |-> c, fn |-> "beam", l |-> l] : l \in [1..3 -> Coords]} \cup {[c |-> c, fn |-> "coords", l |-> l] : l \in [1..2 -> Coords]}
      [] c = "incident" -> LET goodA == {<<0, 1>>, <<-5, -4>>, <<0, -4>>}
                               goodB == {<<1, 1>>, <<2, 3>>, <<2, 1>>}
                               Sizes == {<<x, y>> : x \in 4..8, y \in {6, 8, 9, 10}} IN
                           \* One thing varied at a time from valid calls.
                           {[c |-> c, s |-> s, other |-> s, which |-> 1, axes |-> a, batch |-> b] : s \in Sizes, a \in goodA, b \in goodB}
                           \cup {[c |-> c, s |-> <<6, 9>>, other |-> o, which |-> w, axes |-> a, batch |-> b] : o \in {<<6, 9>>, <<8, 9>>, <<6, 12>>}, w \in 1..3, a \in goodA, b \in goodB}
                           \cup {[c |-> c, s |-> <<6, 9>>, other |-> <<6, 9>>, which |-> 1, axes |-> a, batch |-> b] :
                                     a \in goodA \cup {<<0, -5>>, <<1, 1>>, <<5, 1>>, <<-6, 1>>}, b \in goodB \cup {<<3, 3>>}}
      [] c = "incident0" -> {[c |-> c, s |-> s, other |-> o, which |-> w] : s \in {<<3, 3, 2>>, <<2, 3, 2>>, <<3, 2, 2>>, <<3, 3>>, <<4, 5, 1>>}, o \in {<<3, 3, 2>>, <<2, 3, 2>>, <<3, 2, 2>>, <<3, 3>>, <<4, 5, 1>>}, w \in 1..3}
      [] c = "flat" -> {[c |-> c, s |-> s \o <<t>>] : s \in Shapes(1, 3, 1..2), t \in 2..4}
      [] c = "flux" -> UNION {{[c |-> c, s |-> s \o <<t, 2>>, axes |-> a] : t \in {2 * N - 1, 2 * N, 2 * N + 1}, a \in Axs(Len(s) + 2)} : s \in Shapes(1, 3, {2})}
      [] c = "kt" -> UNION {{[c |-> c, s |-> s \o t, axes |-> a] : t \in {<<N, 2>>, <<N - 1, 2>>, <<N, 3>>, <<2, N>>}, a \in Axs(Len(s) + 2)} : s \in Shapes(1, 3, {2})}
      [] c = "upsample" -> {[c |-> c, f |-> f] : f \in -2..2}
Init == \E c \in Contracts : e \in Cases(c)
Spec == Init /\ [][UNCHANGED e]_e
\* Theorems.
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
OrderIrrelevant == e.c = "compat" => Compatible(e.l) = Compatible(Reverse(e.l))
UnitAxesNeverHurt == e.c = "compat" => (Compatible(e.l) = Compatible(<<<<1>> \o e.l[1], e.l[2], e.l[3]>>))
PairwiseSuffices == e.c = "compat" => (Compatible(e.l) = (Compatible(<<e.l[1], e.l[2]>>) /\ Compatible(<<e.l[1], e.l[3]>>) /\ Compatible(<<e.l[2], e.l[3]>>)))
SignIrrelevant == e.c = "axes" => \A i \in 1..Len(e.axes) : (e.axes[i] \in 0..(e.n - 1)) => AxesOk(e.axes, e.n) = AxesOk([e.axes EXCEPT ![i] = e.axes[i] - e.n], e.n)
Pigeonhole == e.c = "axes" => (Len(e.axes) > e.n => ~AxesOk(e.axes, e.n))
Monotone == e.c = "minshape" => (MinShapeOk(e.s, e.g) => MinShapeOk(<<e.s[1] + 1, e.s[2]>>, e.g) /\ MinShapeOk(<<e.s[1], e.s[2] + 1>>, e.g))
Total == e.c = "compat" \/ Valid(e) \in BOOLEAN
Emit == ~Emitting \/ PrintT("@SCN " \o ToJson(e))
===============================================================================

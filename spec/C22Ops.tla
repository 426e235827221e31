-------------------------------- MODULE C22Ops --------------------------------
(* Domains of the library's functions as predicates on argument shapes and      *)
(* integers.  A case is a record: field "c" names the contract, the other       *)
(* fields are the arguments (shapes as sequences).                              *)
EXTENDS Integers, Sequences, FiniteSets
N == 3                                    \* terms of the expansion used throughout
Shapes(lo, hi, dims) == UNION {[1..r -> dims] : r \in lo..hi}
Last(s) == s[Len(s)]
Lead(s, m) == SubSeq(s, 1, Len(s) - m)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Rng(s) == {s[i] : i \in 1..Len(s)}
AllEqual(ss) == \A i \in 1..Len(ss) : ss[i] = ss[1]

\* Broadcasting: in every axis, counted from the last one, at most one size other than 1.
DimBack(s, k) == IF k > Len(s) THEN 1 ELSE s[Len(s) - k + 1]
MaxLen(ss) == LET m == {Len(ss[i]) : i \in 1..Len(ss)} IN CHOOSE x \in m : \A y \in m : y <= x
Compatible(ss) == \A k \in 1..MaxLen(ss) : Cardinality({DimBack(ss[i], k) : i \in 1..Len(ss)} \ {1}) <= 1

\* Axes: in -n .. n-1 and distinct once negative ones are resolved.
Abs0(a, n) == IF a < 0 THEN a + n ELSE a
AxesOk(axes, n) == /\ \A i \in 1..Len(axes) : axes[i] \in -n..(n - 1)
                   /\ \A i, j \in 1..Len(axes) : i # j => Abs0(axes[i], n) # Abs0(axes[j], n)

\* Arrays that resolve the expansion: at least 2 |G| + 1 samples per axis.
MinShapeOk(s, g) == s[1] >= 2 * g[1] + 1 /\ s[2] >= 2 * g[2] + 1
UnitCellOk(s, b, g) == s[1] % b[1] = 0 /\ s[2] % b[2] = 0 /\ MinShapeOk(<<s[1] \div b[1], s[2] \div b[2]>>, g)

\* Shape of the parts of a layer solution with batch shape b.
RefShape(attr, b) ==
    CASE attr \in {"wavelength"} -> b
      [] attr \in {"in_plane_wavevector", "u", "v"} -> b \o <<2>>
      [] attr = "eigenvalues" -> b \o <<2 * N>>
      [] attr \in {"inverse_z_permittivity_matrix", "z_permittivity_matrix", "inverse_z_permeability_matrix", "z_permeability_matrix"} -> b \o <<N, N>>
      [] attr = "transverse_permeability_matrix" -> b \o <<2 * N, 2 * N>>
      [] attr \in {"tangent_vector_field"} -> b \o <<4, 5>>
Attrs == {"wavelength", "in_plane_wavevector", "u", "v", "eigenvalues", "inverse_z_permittivity_matrix", "z_permittivity_matrix",
          "inverse_z_permeability_matrix", "z_permeability_matrix", "transverse_permeability_matrix", "tangent_vector_field"}
\* Same rank; batch axes may be 1; eigenvalues match exactly; tangent fields need the rank only.
PartOk(attr, s, b) ==
    LET r == RefShape(attr, b) IN
    IF attr = "eigenvalues" THEN s = r
    ELSE /\ Len(s) = Len(r)
         /\ attr = "tangent_vector_field" \/ \A k \in 1..Len(r) : s[k] = r[k] \/ (k <= Len(b) /\ s[k] = 1)

AmpOk(a, n) == Len(a) >= 2 /\ a[Len(a) - 1] = n

Valid(e) ==
    CASE e.c = "axes" -> AxesOk(e.axes, e.n)
      [] e.c = "lattice" -> Last(e.u) = 2 /\ Last(e.v) = 2
      [] e.c = "expansion" -> Len(e.s) = 2 /\ Last(e.s) = 2
      [] e.c = "bz" -> Len(e.s) = 2 /\ \A i \in 1..2 : e.s[i] >= 1
      [] e.c = "minshape" -> (e.fn \in {"iso", "general"} /\ e.s = <<1, 1>>) \/ MinShapeOk(e.s, e.g)
      [] e.c = "ifft" -> e.t = N /\ Len(e.s) = 2
      [] e.c = "eig" -> Last(e.k) = 2 /\ Compatible(<<e.w, Lead(e.k, 1), e.u, e.v, e.p>>)
      [] e.c = "tensor" -> e.s = e.base
      [] e.c = "amps" -> AmpOk(e.a, 2 * N) /\ (e.fn = "propagate" \/ e.b = e.a)
      [] e.c = "modes" -> AmpOk(e.a, N) /\ e.b = e.a
      [] e.c = "lens" -> AllEqual(e.l)
      [] e.c = "location" -> Len(e.s) = 2 /\ Last(e.s) = 2 /\ e.k = 2
      [] e.c = "dipole" -> AllEqual(<<e.x, e.y, e.z>>) /\ AmpOk(e.x, N)
      [] e.c = "part" -> PartOk(e.attr, e.s, e.b)
      [] e.c = "truncation" -> e.v \in {"CIRCULAR", "PARALLELOGRAMIC"}
      [] e.c = "pml" -> 2 * e.w[1] < e.s[1] /\ 2 * e.w[2] < e.s[2]
      [] e.c = "same" -> AllEqual(e.l)
      [] e.c = "incident" -> /\ e.other = e.s
                             /\ AxesOk(e.axes, 5)
                             /\ Compatible(<<e.batch, <<2, 3>>>>)
                             /\ UnitCellOk(e.s, <<2, 3>>, <<1, 1>>)
      [] e.c = "incident0" -> e.s = e.other /\ Len(e.s) = 3 /\ MinShapeOk(e.s, <<1, 1>>)
      [] e.c = "flat" -> Len(e.s) >= 3 /\ Last(e.s) = N
      [] e.c = "flux" -> Len(e.s) >= 4 /\ e.s[Len(e.s) - 1] = 2 * N /\ AxesOk(e.axes, Len(e.s))
      [] e.c = "kt" -> Len(e.s) >= 4 /\ EndsWith(e.s, <<N, 2>>) /\ AxesOk(e.axes, Len(e.s))
      [] e.c = "upsample" -> e.f >= 1
===============================================================================

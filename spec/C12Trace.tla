------------------------------- MODULE C12Trace -------------------------------
(* "point": a recorded real-space value against the plane-wave sum evaluated    *)
(* here; wavevector p/20 of the reciprocal vectors, position i/d of the lattice *)
(* vectors. "axis": assembled z coordinates. "layout": array shapes. "auto":    *)
(* automatic grids.                                                             *)
EXTENDS Stateless, Fix
TwoPi == 6283185
Half(r, d) == IF 2 * r > d THEN r - d ELSE r
Rot(num, den) == CExp(<<0, FMul(TwoPi, FDiv(Half(num % den, den) * 1000, den * 1000))>>)
RECURSIVE Wave(_, _)
Wave(e, k) == IF k = 0 THEN CZero ELSE
    CAdd(Wave(e, k - 1), CMul(e.coef[k], CMul(Rot((e.p1 + 20 * e.orders[k][1]) * e.i1, 20 * e.d1),
                                              Rot((e.p2 + 20 * e.orders[k][2]) * e.i2, 20 * e.d2))))
Along(e, c) == (e.uv[1][c] * e.i1) \div e.d1 + (e.uv[2][c] * e.i2) \div e.d2
PointClauses(e) ==
    [ value |-> CNear(e.obs, Wave(e, Len(e.coef)), 150 * Len(e.coef)),
      x |-> AbsF(e.x - Along(e, 1)) <= 10,
      y |-> AbsF(e.y - Along(e, 2)) <= 10 ]

RECURSIVE Axis(_, _, _, _)
Axis(e, k, z0, acc) == IF k > Len(e.nums) THEN acc
    ELSE LET d == e.depths[k]
             n == e.nums[k] IN
         Axis(e, k + 1, z0 + d, acc \o [i \in 1..n |-> z0 + (IF n = 1 THEN 0 ELSE (d * (i - 1)) \div (n - 1))])
AxisClauses(e) == [ z |-> NearSeq(e.z, Axis(e, 1, 0, <<>>), 20) ]
LayoutClauses(e) == [ fields |-> e.eshape = e.want /\ e.hshape = e.want,
                      coordinates |-> e.xshape = e.xwant /\ e.yshape = e.xwant,
                      z |-> e.zshape = e.zwant ]
\* Number of points: spacing nearest to the requested one.
Fits(len, n, g) == AbsF(n * g - len) * 2 <= g + 4
AutoClauses(e) == [ u |-> Fits(e.lu, e.nu, e.g), v |-> Fits(e.lv, e.nv, e.g),
                    z |-> \E f \in [1..Len(e.depths) -> 0..6] :
                             /\ \A k \in 1..Len(e.depths) : Fits(e.depths[k], f[k], e.g)
                             /\ NearSeq(e.z, Axis([nums |-> f, depths |-> e.depths], 1, 0, <<>>), 20) ]
Clauses(e) == CASE e.ev = "point" -> PointClauses(e)
                [] e.ev = "axis" -> AxisClauses(e)
                [] e.ev = "layout" -> LayoutClauses(e)
                [] e.ev = "auto" -> AutoClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

---------------------------------- MODULE Lat ---------------------------------
(* Integer lattice geometry shared by several specifications. A lattice is a    *)
(* pair of integer vectors <<ux, uy, vx, vy>>; lengths are in units of a scale. *)
EXTENDS Integers, Sequences

AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Cross(L) == L[1] * L[4] - L[2] * L[3]
\* Reciprocal vectors times the cross product: u' = (vy, -vx), v' = (-uy, ux).
RecU(L) == <<L[4], -L[3]>>
RecV(L) == <<-L[2], L[1]>>
\* |G|^2 * cross^2
Quad(L, g) == LET x == g[1] * L[4] - g[2] * L[2]
                  y == g[2] * L[1] - g[1] * L[3] IN x * x + y * y
UU(L) == L[1] * L[1] + L[2] * L[2]
VV(L) == L[3] * L[3] + L[4] * L[4]

RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF m <= 46340 /\ m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, 46340)

(* Membership in the circle of area num * |u' x v'|: |G|^2 pi < num |cross|.    *)
(* 333/106 < pi < 355/113; "maybe" only in the gap between the two.             *)
SurelyIn(L, num, g) ==
    LET q == Quad(L, g)
        c == num * AbsI(Cross(L)) IN q <= c /\ q * 355 < c * 113
SurelyOut(L, num, g) ==
    LET q == Quad(L, g)
        c == num * AbsI(Cross(L)) IN q > c \/ q * 333 >= c * 106
\* A box that contains the circle: G1^2 <= num |u|^2 / (pi |cross|), same for G2.
BoxA(L, num) == ISqrt((num * UU(L)) \div (3 * AbsI(Cross(L)))) + 1
BoxB(L, num) == ISqrt((num * VV(L)) \div (3 * AbsI(Cross(L)))) + 1
Box(L, num) == {<<i, j>> : i \in (-BoxA(L, num))..BoxA(L, num), j \in (-BoxB(L, num))..BoxB(L, num)}
CircleMust(L, num) == {g \in Box(L, num) : SurelyIn(L, num, g)}

(* Parallelogramic truncation: (2 nu + 1)(2 r nu + 1) = num with r = ku / kv    *)
(* = |v| / |u|, rounded; r is bracketed by R/1000 <= r <= (R + 1)/1000.         *)
RatioLo(aa, bb) == \* floor(1000 sqrt(aa / bb))
    LET s == IF aa * bb < 2000 THEN 1000 ELSE IF aa * bb < 200000 THEN 100 ELSE 10
        w == ISqrt(aa * bb * s * s)
    IN (w * (1000 \div s)) \div bb
RatioHi(aa, bb) ==
    LET s == IF aa * bb < 2000 THEN 1000 ELSE IF aa * bb < 200000 THEN 100 ELSE 10
        w == ISqrt(aa * bb * s * s) + 1
    IN (w * (1000 \div s)) \div bb + 1
\* nu is acceptable for ratio in [lo, hi] / 1000.
HalfOk(nu, lo, hi, num) ==
    /\ nu = 0 \/ 2 * nu * (2 * lo * nu - lo + 1000) <= num * 1000
    /\ (2 * nu + 2) * (2 * hi * nu + hi + 1000) >= num * 1000
===============================================================================

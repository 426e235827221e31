---------------------------------- MODULE Fix ---------------------------------
(* Fixed-point real and complex arithmetic with 10^6 units per one, inside      *)
(* TLC's 32-bit integers (magnitudes up to about 500). Complex: <<re, im>>.     *)
EXTENDS Integers, Sequences

F1 == 1000000
AbsF(x) == IF x < 0 THEN -x ELSE x
MaxF(a, b) == IF a > b THEN a ELSE b

FMulP(a, b) == LET ah == a \div 1000
                   al == a % 1000
                   bh == b \div 1000
                   bl == b % 1000
               IN ah * bh + (ah * bl + al * bh + (al * bl) \div 1000 + 500) \div 1000
FMul(a, b) == IF (a < 0) = (b < 0) THEN FMulP(AbsF(a), AbsF(b)) ELSE -FMulP(AbsF(a), AbsF(b))

RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0
                   ELSE ((r * 10) \div b) * (CASE n = 6 -> 100000 [] n = 5 -> 10000 [] n = 4 -> 1000 [] n = 3 -> 100 [] n = 2 -> 10 [] OTHER -> 1)
                        + Digits((r * 10) % b, b, n - 1)
RECURSIVE FDivP(_, _)
FDivP(a, b) == IF b > 200000000 THEN FDivP(a \div 10, b \div 10)
               ELSE (a \div b) * F1 + Digits(a % b, b, 6)
FDiv(a, b) == IF (a < 0) = (b < 0) THEN FDivP(AbsF(a), AbsF(b)) ELSE -FDivP(AbsF(a), AbsF(b))

RECURSIVE NewtonF(_, _, _)
NewtonF(a, x, n) == IF n = 0 THEN x ELSE
    LET y == (x + FDivP(a, x)) \div 2 IN IF AbsF(y - x) <= 1 THEN y ELSE NewtonF(a, y, n - 1)
FSqrt(a) == IF a <= 0 THEN 0 ELSE NewtonF(a, MaxF(a, F1), 40)

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CNeg(x) == <<-x[1], -x[2]>>
CMul(x, y) == <<FMul(x[1], y[1]) - FMul(x[2], y[2]), FMul(x[1], y[2]) + FMul(x[2], y[1])>>
CScale(s, x) == <<FMul(s, x[1]), FMul(s, x[2])>>
CHalf(x) == <<x[1] \div 2, x[2] \div 2>>
CConj(x) == <<x[1], -x[2]>>
COne == <<F1, 0>>
CZero == <<0, 0>>
CI == <<0, F1>>
CDiv(x, y) ==
    IF AbsF(y[1]) >= AbsF(y[2])
    THEN LET r == FDiv(y[2], y[1])
             d == y[1] + FMul(y[2], r)
         IN <<FDiv(x[1] + FMul(x[2], r), d), FDiv(x[2] - FMul(x[1], r), d)>>
    ELSE LET r == FDiv(y[1], y[2])
             d == y[2] + FMul(y[1], r)
         IN <<FDiv(FMul(x[1], r) + x[2], d), FDiv(FMul(x[2], r) - x[1], d)>>
CAbs(x) == LET m == MaxF(AbsF(x[1]), AbsF(x[2])) IN
    IF m = 0 THEN 0 ELSE LET a == FDiv(x[1], m)
                             b == FDiv(x[2], m) IN FMul(m, FSqrt(FMul(a, a) + FMul(b, b)))

RECURSIVE Taylor(_, _, _, _)
Taylor(z, term, k, n) == IF k > n THEN CZero
    ELSE LET t == CMul(term, z)
             u == <<t[1] \div k, t[2] \div k>> IN CAdd(u, Taylor(z, u, k + 1, n))
RECURSIVE SqN(_, _)
SqN(x, n) == IF n = 0 THEN x ELSE SqN(CMul(x, x), n - 1)
\* exp(z): the reduction by 2^k is applied until |z| < 1/2.
RECURSIVE CExpK(_, _)
CExpK(z, k) == IF AbsF(z[1]) + AbsF(z[2]) > 500000
               THEN CExpK(CHalf(z), k + 1)
               ELSE SqN(CAdd(COne, Taylor(z, COne, 1, 8)), k)
CExp(z) == CExpK(z, 0)

\* Square root with non-negative imaginary part (positive real part if real).
CSqrt(z) ==
    IF z[2] = 0 THEN (IF z[1] >= 0 THEN <<FSqrt(z[1]), 0>> ELSE <<0, FSqrt(-z[1])>>)
    ELSE LET r == CAbs(z)
             \* the larger of the two parts first
             p == IF z[1] >= 0 THEN FSqrt((r + z[1]) \div 2) ELSE FDiv(AbsF(z[2]) \div 2, FSqrt((r - z[1]) \div 2))
             q == IF z[1] >= 0 THEN FDiv(AbsF(z[2]) \div 2, FSqrt((r + z[1]) \div 2)) ELSE FSqrt((r - z[1]) \div 2)
         IN IF z[2] > 0 THEN <<p, q>> ELSE <<-p, q>>
CNear(x, y, tol) == AbsF(x[1] - y[1]) <= tol /\ AbsF(x[2] - y[2]) <= tol
===============================================================================

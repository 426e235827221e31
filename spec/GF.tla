---------------------------------- MODULE GF ----------------------------------
(* Exact linear algebra over the prime field GF(P): scalars, 2x2 matrices and   *)
(* 2x2 block matrices of those. P*P must stay below 2^31.                       *)
EXTENDS Integers, Sequences

CONSTANT P

Md(x) == x % P
Ad(x, y) == (x + y) % P
Sb(x, y) == (x - y) % P
Ml(x, y) == (x * y) % P

RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1
            ELSE IF n % 2 = 0 THEN LET h == Pw(x, n \div 2) IN Ml(h, h)
            ELSE Ml(x, Pw(x, n - 1))
Iv(x) == Pw(x, P - 2)
Half == Iv(2)

\* 2x2 matrices <<a, b, c, d>> = [[a, b], [c, d]].
I2 == <<1, 0, 0, 1>>
Z2 == <<0, 0, 0, 0>>
MAdd(A, B) == [i \in 1..4 |-> Ad(A[i], B[i])]
MSub(A, B) == [i \in 1..4 |-> Sb(A[i], B[i])]
MScale(s, A) == [i \in 1..4 |-> Ml(s, A[i])]
MNeg(A) == MSub(Z2, A)
MMul(A, B) == << Ad(Ml(A[1], B[1]), Ml(A[2], B[3])), Ad(Ml(A[1], B[2]), Ml(A[2], B[4])),
                 Ad(Ml(A[3], B[1]), Ml(A[4], B[3])), Ad(Ml(A[3], B[2]), Ml(A[4], B[4])) >>
MDet(A) == Sb(Ml(A[1], A[4]), Ml(A[2], A[3]))
MInv(A) == LET d == Iv(MDet(A)) IN << Ml(d, A[4]), Ml(d, Md(-A[2])), Ml(d, Md(-A[3])), Ml(d, A[1]) >>
MDiag(x, y) == <<x, 0, 0, y>>
MMul3(A, B, D) == MMul(A, MMul(B, D))

\* Block matrices [b11, b12, b21, b22] of 2x2 matrices.
BMul(X, Y) == << MAdd(MMul(X[1], Y[1]), MMul(X[2], Y[3])), MAdd(MMul(X[1], Y[2]), MMul(X[2], Y[4])),
                 MAdd(MMul(X[3], Y[1]), MMul(X[4], Y[3])), MAdd(MMul(X[3], Y[2]), MMul(X[4], Y[4])) >>
===============================================================================

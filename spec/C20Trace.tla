------------------------------- MODULE C20Trace -------------------------------
(* "eig": derivative of Re( sum c_i l_i + tr(C V diag(k) V^-1) ) along a        *)
(* direction, against the perturbation formula (with the documented Lorentzian  *)
(* broadening).  "fd": derivative of a real quantity of the solver against      *)
(* Richardson-extrapolated central differences of its values.                   *)
(* "finite": gradients whose values are only required to be finite.             *)
EXTENDS Stateless, Fix
CONSTANTS Tol, FdTol
At(m, n, i, j) == LET q == ((i - 1) * n + (j - 1)) * 2 IN <<m[q + 1], m[q + 2]>>
Vec(v, i) == <<v[2 * i - 1], v[2 * i]>>
RECURSIVE CSum(_, _)
CSum(f, n) == IF n = 0 THEN CZero ELSE CAdd(f[n], CSum(f, n - 1))
Mul(X, Y, n) == [p \in (1..n) \X (1..n) |-> CSum([k \in 1..n |-> CMul(X[<<p[1], k>>], Y[<<k, p[2]>>])], n)]
Mat(m, n) == [p \in (1..n) \X (1..n) |-> At(m, n, p[1], p[2])]
\* 1 / delta with Lorentzian broadening conj(delta) / (|delta|^2 + eps).
Inv(delta, eps) == LET m == FMul(delta[1], delta[1]) + FMul(delta[2], delta[2]) + eps IN
    IF m = 0 THEN CZero ELSE <<FDiv(delta[1], m), FDiv(-delta[2], m)>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
EigClauses(e) ==
    LET n == e.n
        V == TLCEval(Mat(e.V, n))
        W == TLCEval(Mat(e.W, n))
        A == Mat(e.A, n)
        B == TLCEval(Mul(W, TLCEval(Mul(Mat(e.d, n), V, n)), n))
        M == TLCEval(Mul(W, TLCEval(Mul(Mat(e.C, n), V, n)), n))
        Idx == 1..n
        sq(i, j) == LET x == CSub(Vec(e.l, j), Vec(e.l, i)) IN FMul(x[1], x[1]) + FMul(x[2], x[2])
        range == MaxOf({sq(i, j) : i, j \in Idx})
        eps == FMul(e.eps, range)
        lin == CSum([i \in Idx |-> CMul(Vec(e.c, i), B[<<i, i>>])], n)
        term(i, j) == IF i = j THEN CZero ELSE
            CMul(CMul(CMul(B[<<i, j>>], CSub(Vec(e.k, j), Vec(e.k, i))), Inv(CSub(Vec(e.l, j), Vec(e.l, i)), eps)), M[<<j, i>>])
        prj == CSum([i \in Idx |-> CSum([j \in Idx |-> term(i, j)], n)], n)
    IN [ eigensystem |-> \A i, j \in Idx :
            CNear(CSum([k \in Idx |-> CMul(A[<<i, k>>], V[<<k, j>>])], n), CMul(V[<<i, j>>], Vec(e.l, j)), Tol),
         eigenvalues |-> Near(e.glin, lin[1], Tol + AbsF(lin[1]) \div 2000),
         eigenvectors |-> Near(e.gprj, prj[1], Tol + AbsF(prj[1]) \div 500) ]
Clauses(e) ==
    CASE e.ev = "eig" -> EigClauses(e)
      [] e.ev = "fd" -> [ derivative |-> LET r == (4 * e.d1 - e.d2) \div 3 IN Near(e.g, r, FdTol + AbsF(r) \div 10000 + AbsF(e.d1 - e.d2)) ]
      [] e.ev = "finite" -> [ finite |-> Finite(e.g) ]
      [] e.ev = "batch" -> [ batched |-> NearSeq(e.g, e.loop, FdTol) ]
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

------------------------------- MODULE C19Trace -------------------------------
(* Rotations in fixed point (10^6). Angles as <<cos, sin>>; points, origins and *)
(* affine field functions f(r) = A r + c as fixed-point numbers.                *)
EXTENDS Stateless, Fix
CONSTANT Tol
Dot3(a, b) == FMul(a[1], b[1]) + FMul(a[2], b[2]) + FMul(a[3], b[3])
MV(A, v) == [i \in 1..3 |-> Dot3(A[i], v)]
T3(A) == [i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]]
MM(A, B) == LET Bt == T3(B) IN [i \in 1..3 |-> [j \in 1..3 |-> Dot3(A[i], Bt[j])]]
Ry(a) == <<<<a[1], 0, a[2]>>, <<0, F1, 0>>, <<-a[2], 0, a[1]>>>>
Rz(a) == <<<<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, F1>>>>
Rot(e) == MM(Rz(e.az), MM(Ry(e.polar), Rz(e.pol)))
MatNear(A, B) == \A i \in 1..3 : \A j \in 1..3 : AbsF(A[i][j] - B[i][j]) <= Tol
Id == <<<<F1, 0, 0>>, <<0, F1, 0>>, <<0, 0, F1>>>>

MatrixClauses(e) ==
    LET R == Rot(e) IN
    [ rotation   |-> Len(e.mat) = 3 /\ MatNear(e.mat, R),
      orthogonal |-> MatNear(MM(e.mat, T3(e.mat)), Id) ]
\* Vector field of the beam at r: real and imaginary parts are affine in r.
Field(f, r) == [i \in 1..3 |-> f.c[i] + Dot3(f.a[i], r)]
PointOk(e, R, p) ==
    LET r == MV(T3(R), [i \in 1..3 |-> p.r[i] - e.origin[i]])
        want(f) == MV(R, Field(f, r))
        ok(f, got) == LET v == want(f) IN \A i \in 1..3 : AbsF(v[i] - got[i]) <= 20 * Tol IN
    ok(e.fe, p.e) /\ ok(e.fh, p.h) /\ ok(e.fi, p.i)
FieldClauses(e) ==
    LET R == Rot(e) IN
    [ shape  |-> \A i \in 1..Len(e.shapes) : e.shapes[i] = e.want,
      motion |-> \A i \in 1..Len(e.points) : PointOk(e, R, e.points[i]) ]
Clauses(e) == CASE e.ev = "matrix" -> MatrixClauses(e) [] e.ev = "fields" -> FieldClauses(e)
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

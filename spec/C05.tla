--------------------------------- MODULE C05 ----------------------------------
(* Maxwell's curl equations per Fourier order, exactly over GF(P): the          *)
(* transverse operator split used by modal methods. States: all material and    *)
(* wavevector choices in small sets. From the tangential magnetic field of a    *)
(* mode the other four components follow; the invariants say that they satisfy  *)
(* all six curl equations exactly when q squared is an eigenvalue. Symbols: the *)
(* factor i is carried by the real-valued substitution E, H -> exp(i(k.r + qz)).*)
EXTENDS GF
CONSTANTS Vals, Ks
VARIABLES e, m, kx, ky, w, hx, hy
vars == <<e, m, kx, ky, w, hx, hy>>
FAdd(x, y) == Ad(x, y)
FSub(x, y) == Sb(x, y)
FNeg(x) == Sb(0, x)
FMul(x, y) == Ml(x, y)
FMul3(x, y, z) == Ml(x, Ml(y, z))
FMul4(x, y, z, u) == Ml(Ml(x, y), Ml(z, u))
FDiv(x, y) == Ml(x, Iv(y))
\* Orthotropic media e, m = <<xx, yy, zz>>; k2 the squared wavevectors.
Init == /\ e \in [1..3 -> Vals] /\ m \in [1..3 -> Vals] /\ kx \in Ks /\ ky \in {0} \cup Ks /\ w \in Ks
        /\ hx \in {0, 1} /\ hy = 0
Polarize == hy = 0 /\ hy' \in {1, 5} /\ UNCHANGED <<e, m, kx, ky, w, hx>>
Next == Polarize
Spec == Init /\ [][Next]_vars

\* Omega (H) / w = q (-Ey, Ex): with H = (hx, hy).
Om1 == FSub(FMul3(w, m[1], hx), FDiv(FSub(FMul3(ky, ky, hx), FMul3(ky, kx, hy)), FMul(w, e[3])))
Om2 == FSub(FMul3(w, m[2], hy), FDiv(FSub(FMul3(kx, kx, hy), FMul3(kx, ky, hx)), FMul(w, e[3])))
\* (-Ey, Ex) * q.
qNegEy == Om1
qEx == Om2
Ez == FDiv(FSub(FMul(ky, hx), FMul(kx, hy)), FMul(w, e[3]))
qHz == FDiv(FSub(FMul(kx, FNeg(qNegEy)), FMul(ky, qEx)), FMul(w, m[3]))
\* q^2 H from the remaining two equations:  q Hx = kx Hz + w eyy (-Ey), q Hy = ky Hz + w exx Ex.
q2Hx == FAdd(FMul(kx, qHz), FMul3(w, e[2], qNegEy))
q2Hy == FAdd(FMul(ky, qHz), FMul3(w, e[1], qEx))
\* Modal operator (E Omega - K M) H.
K1 == FDiv(FAdd(FMul4(kx, kx, m[1], hx), FMul4(kx, ky, m[2], hy)), m[3])
K2 == FDiv(FAdd(FMul4(ky, kx, m[1], hx), FMul4(ky, ky, m[2], hy)), m[3])
Op1 == FSub(FMul3(w, e[2], Om1), K1)
Op2 == FSub(FMul3(w, e[1], Om2), K2)

\* The two routes agree for every H: eigenvectors of the operator are exactly the modes.
Equivalent == q2Hx = Op1 /\ q2Hy = Op2
\* Faraday, x and y:  ky Ez - q Ey = w mxx Hx,  q Ex - kx Ez = w myy Hy.
Faraday == /\ FAdd(FMul(ky, Ez), qNegEy) = FMul3(w, m[1], hx)
           /\ FSub(qEx, FMul(kx, Ez)) = FMul3(w, m[2], hy)
===============================================================================

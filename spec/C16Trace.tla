------------------------------- MODULE C16Trace -------------------------------
(* All cells and components of returned PML tensors, evaluated in fixed point:  *)
(* s(d) = (1 + a d^p) (1 + i sigma sin^2(pi d / 2)), d = depth / width.         *)
EXTENDS Stateless, Fix
G == INSTANCE C16 WITH MaxN <- 0, MaxW <- 0, nx <- 0, ny <- 0, wx <- 0, wy <- 0, cell <- 0

HalfPi == 1570796
RECURSIVE PowF(_, _)
PowF(x, n) == IF n = 0 THEN F1 ELSE FMul(x, PowF(x, n - 1))
\* Exponents in halves.
Power(d, p2) == IF d = 0 THEN 0 ELSE FMul(PowF(d, p2 \div 2), IF p2 % 2 = 1 THEN FSqrt(d) ELSE F1)
Sin2(d) == LET v == CExp(<<0, FMul(HalfPi, d)>>)[2] IN FMul(v, v)
Stretch(depth, width, e) == IF depth = 0 THEN COne ELSE
    LET d == (depth * F1) \div width IN
    CScale(F1 + FMul(e.a, Power(d, e.p2)), <<F1, FMul(e.sigma, Sin2(d))>>)
Tol(z) == 40 + (AbsF(z[1]) + AbsF(z[2])) \div 20000
Same(x, y) == CNear(x, y, Tol(y))
\* Cell (i, j) of the batch element: e.xx[k] etc. in C order.
CellOk(e, i, j) ==
    LET k == i * e.ny + j + 1
        src == G!Source(i, e.nx, e.wx) * e.ny + G!Source(j, e.ny, e.wy) + 1
        sx == Stretch(G!Depth(i, e.nx, e.wx), e.wx, e)
        sy == Stretch(G!Depth(j, e.ny, e.wy), e.wy, e)
        fx == CDiv(sy, sx)
        fy == CDiv(sx, sy)
        fz == CMul(sx, sy)
        m == e.eps[src] IN
    [ eps |-> Same(e.exx[k], CMul(fx, m)) /\ Same(e.eyy[k], CMul(fy, m)) /\ Same(e.ezz[k], CMul(fz, m)),
      mu  |-> Same(e.mxx[k], fx) /\ Same(e.myy[k], fy) /\ Same(e.mzz[k], fz),
      off |-> e.exy[k] = CZero /\ e.eyx[k] = CZero /\ e.mxy[k] = CZero /\ e.myx[k] = CZero,
      interior |-> (G!Depth(i, e.nx, e.wx) = 0 /\ G!Depth(j, e.ny, e.wy) = 0) =>
                      e.exx[k] = e.eps[k] /\ e.ezz[k] = e.eps[k] /\ e.mxx[k] = COne,
      passive |-> e.mzz[k][2] >= -2 ]
PmlClauses(e) == [c \in {"eps", "mu", "off", "interior", "passive"} |->
                     \A i \in 0..(e.nx - 1) : \A j \in 0..(e.ny - 1) : CellOk(e, i, j)[c]]
Clauses(e) == CASE e.ev = "pml" -> PmlClauses(e)
                [] e.ev = "valid" -> [ accepted |-> (G!Valid(e.nx, e.wx) /\ G!Valid(e.ny, e.wy)) = e.ok ]
                [] e.ev = "shape" -> [ shape |-> \A i \in 1..Len(e.shapes) : e.shapes[i] = e.want ]
TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

------------------------------- MODULE C09Trace -------------------------------
(* Fixed point: lengths are multiples of the lattice scale, wavevectors are in  *)
(* units of 2 pi / scale. S units per unit.                                     *)
EXTENDS Stateless, Lat
CONSTANTS S, Slack  \* Slack: 1 in double precision
\* obs * den = S * num up to a few units of obs.
Frac(obs, num, den) == /\ Abs(obs) < 2000000000
                       /\ Abs(obs) <= 2147480000 \div (Abs(den) + 1)
                       /\ Abs(obs * den - S * num) <= 2 * Slack * Abs(den)

Ctr(n, i) == 2 * i - 1 - n

Clauses(e) ==
    CASE e.ev = "recip" ->
           [ shape |-> e.shape = e.want,
             dual  |-> \A b \in 1..Len(e.lats) : LET L == e.lats[b]
                                                     c == Cross(L) IN
                /\ Frac(e.u[2 * b - 1], RecU(L)[1], c) /\ Frac(e.u[2 * b], RecU(L)[2], c)
                /\ Frac(e.v[2 * b - 1], RecV(L)[1], c) /\ Frac(e.v[2 * b], RecV(L)[2], c) ]
      [] e.ev = "coords" ->
           LET nx == e.nx
               ny == e.ny
               A == nx * e.m
               B == ny * e.n IN
           [ shape |-> e.shape = e.want,
             place |-> \A t \in 1..Len(e.lats) : \A a \in 0..(A - 1), b \in 0..(B - 1) :
                LET L == e.lats[t]
                    k == (t - 1) * A * B + a * B + b + 1 IN
                /\ Frac(e.x[k], a * ny * L[1] + b * nx * L[3], nx * ny)
                /\ Frac(e.y[k], a * ny * L[2] + b * nx * L[4], nx * ny) ]
      [] e.ev = "tw" ->
           \* k0 given as integers over kd (units 2 pi / scale), per batch element.
           [ shape |-> e.shape = e.want,
             order |-> \A t \in 1..Len(e.lats) : \A i \in 1..Len(e.g) :
                LET L == e.lats[t]
                    c == Cross(L)
                    k == 2 * ((t - 1) * Len(e.g) + i) - 1
                    gx == e.g[i][1] * RecU(L)[1] + e.g[i][2] * RecV(L)[1]
                    gy == e.g[i][1] * RecU(L)[2] + e.g[i][2] * RecV(L)[2] IN
                /\ Frac(e.k[k], e.k0[t][1] * c + gx * e.kd, c * e.kd)
                /\ Frac(e.k[k + 1], e.k0[t][2] * c + gy * e.kd, c * e.kd) ]
      [] e.ev = "bz" ->
           [ shape   |-> e.shape = <<e.bz[1], e.bz[2], 2>>,
             count   |-> Len(e.k) = 2 * e.bz[1] * e.bz[2],
             centers |-> \A i \in 1..e.bz[1], j \in 1..e.bz[2] :
                LET L == e.lat
                    c == Cross(L)
                    k == 2 * ((i - 1) * e.bz[2] + j) - 1
                    a == Ctr(e.bz[1], i) * e.bz[2]
                    b == Ctr(e.bz[2], j) * e.bz[1]
                    d == 2 * e.bz[1] * e.bz[2] IN
                k < Len(e.k) /\ Frac(e.k[k], a * RecU(L)[1] + b * RecV(L)[1], c * d)
                /\ Frac(e.k[k + 1], a * RecU(L)[2] + b * RecV(L)[2], c * d) ]
      [] e.ev = "bzcount" ->
           [ shape |-> e.shape = <<e.bz[1], e.bz[2], 2>>,
             first |-> Frac(e.first, Ctr(e.bz[1], 1), 2 * e.bz[1]),
             last  |-> Frac(e.last, Ctr(e.bz[1], e.bz[1]), 2 * e.bz[1]) ]
      [] e.ev = "pw" ->
           \* kx = n sin(theta) cos(phi) / lambda with Pythagorean angles.
           [ shape |-> e.shape = e.want,
             kx    |-> \A t \in 1..Len(e.c) : LET q == e.c[t] IN Frac(e.k[2 * t - 1], q.n * q.st * q.cp * q.ld, q.sd * q.pd * q.ln * q.nd),
             ky    |-> \A t \in 1..Len(e.c) : LET q == e.c[t] IN Frac(e.k[2 * t], q.n * q.st * q.sp * q.ld, q.sd * q.pd * q.ln * q.nd) ]

TraceSpec == WalkInit /\ [][Walk(Clauses)]_ln
===============================================================================

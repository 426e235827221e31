-------------------------------- MODULE C18Ops --------------------------------
(* How operations on a structure act on its tangent field.  The field enters    *)
(* layer solutions only through t t^H, so it is observed through the quadratic  *)
(* quantities <<|tx|^2, |ty|^2, Re(tx ty~), |Im(tx ty~)|>> per grid point.      *)
EXTENDS Integers, Sequences
\* Grid point of the original structure that is found at point <<i, j>> of the image (0-based; nx, ny: image size).
Source(o, p, nx, ny) ==
    CASE o.op = "swap"  -> <<p[2], p[1]>>
      [] o.op = "negu"  -> <<(nx - p[1]) % nx, p[2]>>
      [] o.op = "negv"  -> <<p[1], (ny - p[2]) % ny>>
      [] o.op = "half"  -> <<(nx - p[1]) % nx, (ny - p[2]) % ny>>
      [] o.op = "flipx" -> <<(nx - p[1]) % nx, p[2]>>
      [] OTHER -> p
\* Size of the structure before the operation, from the size after it.
SizeBefore(o, sz) == IF o.op = "swap" THEN <<sz[2], sz[1]>> ELSE sz
===============================================================================

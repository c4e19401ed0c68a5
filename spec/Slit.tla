-------------------------------- MODULE Slit --------------------------------
(* What each detector row collects: the galaxy seen through the slit.        *)
(*                                                                           *)
(* Lengths in units of delta/U, delta the sub-pixel and U = 8g.  A view c:   *)
(*   rows, ns   whole rows and sub-pixels per pixel                          *)
(*   W          slit width in delta/4; it is cut into n = ceil(W/4) columns  *)
(*   M4         4 x (object row + sub-pixel offset), in whole pixels         *)
(*   Xc         position across the slit, in delta/8                         *)
(*   pc, ps     misalignment: cosine, sine over pd (1 or 5)                  *)
(*   ic, is     inclination:  cosine, sine over id (1 or 5)                  *)
(* Directions: x across the slit, y along it, z towards the observer.        *)
EXTENDS Common
NCols(c) == (c.W + 3) \div 4
G(c) == IF c.W = 4 * NCols(c) THEN 1 ELSE NCols(c)
U(c) == 8 * G(c)
NZ(c) == c.rows * c.ns                     \* depth: as deep as the slit is long
X(c, k) == (2*k + 1 - NCols(c)) * ((c.W * G(c)) \div NCols(c)) - c.Xc * G(c)
Y(c, j) == G(c) * (8*j - 4*(c.ns - 1) - 2 * c.ns * c.M4)
Z(c, l) == 4 * G(c) * (2*l + 1 - NZ(c))
(* galaxy frame, in units delta/(U pd id): minor axis, major axis, thickness  *)
Frame(c, x, y, z) ==
  LET xp == x * c.pc + y * c.ps
      yp == y * c.pc - x * c.ps
      zp == z * c.pd
  IN [ x |-> c.ic * xp + c.is * zp, y |-> c.id * yp, z |-> c.ic * zp - c.is * xp ]
RECURSIVE SumF(_, _, _)
SumF(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumF(f, lo + 1, hi)
(* sums over the cells of a column of sky, a column, a row                   *)
Cell(c, j, k, what) ==
  SumF([l \in 0..(NZ(c)-1) |-> LET f == Frame(c, X(c, k), Y(c, j), Z(c, l))
                                   h == Frame(c, X(c, k) \div 4, Y(c, j) \div 4, Z(c, l) \div 4)      \* where these are whole
                               IN CASE what = "r2" -> f.x*f.x + f.y*f.y
                                    [] what = "z2" -> f.z*f.z
                                    [] what = "r2z2" -> (h.x*h.x + h.y*h.y) * h.z*h.z], 0, NZ(c) - 1)
Pixel(c, j, ks, what) ==      \* whole row j, columns ks (a range <<lo, hi>>)
  SumF([jj \in (j*c.ns)..(j*c.ns + c.ns - 1) |-> SumF([k \in ks[1]..ks[2] |-> Cell(c, jj, k, what)], ks[1], ks[2])], j*c.ns, j*c.ns + c.ns - 1)
Cells(c, ks) == c.ns * (ks[2] - ks[1] + 1) * NZ(c)
(* s / d in units of 1/1000                                                  *)
Milli(s, d) == 1000 * (s \div d) + (1000 * (s % d)) \div d
(* intensity a + b r^2 + c z^2 + d r^2 z^2 (lengths in delta): the row's flux over       *)
(* delta z, delta x and the line ratios, in units of 1/1000                  *)
RowFlux(c, j, ks) ==
  LET d == U(c) * U(c) * c.pd * c.pd * c.id * c.id
  IN 1000 * c.a * Cells(c, ks)
     + (IF c.b = 0 THEN 0 ELSE c.b * Milli(Pixel(c, j, ks, "r2"), d))
     + (IF c.c = 0 THEN 0 ELSE c.c * Milli(Pixel(c, j, ks, "z2"), d))
     + (IF c.d = 0 THEN 0 ELSE c.d * Milli(Pixel(c, j, ks, "r2z2"), 16 * c.pd * c.pd * c.pd * c.pd * c.id * c.id * c.id * c.id))
AllCols(c) == <<0, NCols(c) - 1>>
Image(c) == [j \in 1..c.rows |-> RowFlux(c, j - 1, AllCols(c))]
(* the cube: as wide as it is long, nothing summed over x                     *)
CubeView(c) == [c EXCEPT !.W = 4 * c.rows * c.ns]
Cube(c) == [j \in 1..c.rows |-> [i \in 1..c.rows |-> RowFlux(CubeView(c), j - 1, <<(i-1)*c.ns, i*c.ns - 1>>)]]

(* light profile: ln I at r = re (k2/2)^n, z = (t/8) of q0 re, in 1/2000       *)
LnI(n4, k2, t, scale) == (500 * n4 - 324) * (2 - k2) - (IF scale THEN 419 ELSE 250) * Abs(t)
=============================================================================

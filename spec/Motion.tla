------------------------------- MODULE Motion -------------------------------
(* Line positions and widths of a galaxy turning as a solid body: the        *)
(* line-of-sight velocity K y sin(i) (y along the galaxy's major axis) is    *)
(* averaged with the light of each patch.  View c as in Slit with            *)
(*   u     all lengths are multiples of u (4 or 1) of Slit's unit            *)
(*   K     km/s per sub-pixel, of either sign                                *)
EXTENDS Slit, Tables
MU(c) == (U(c) \div c.u) * c.pd * c.id
Weight(c, f) == c.a * MU(c) * MU(c) + c.b * (f.x*f.x + f.y*f.y) + c.c * f.z*f.z
Add3(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
RECURSIVE Sum3(_, _, _)
Sum3(f, lo, hi) == IF lo > hi THEN <<0, 0, 0>> ELSE Add3(f[lo], Sum3(f, lo + 1, hi))
Cell3(c, j, k) == Sum3([l \in 0..(NZ(c)-1) |->
   LET f == Frame(c, X(c, k) \div c.u, Y(c, j) \div c.u, Z(c, l) \div c.u) w == Weight(c, f)
   IN <<w, w * f.y, w * f.y * f.y>>], 0, NZ(c) - 1)
(* light, and light-weighted first and second moment of y, in whole row j     *)
Moments(c, j, ks) == Sum3([jj \in (j*c.ns)..(j*c.ns + c.ns - 1) |-> Sum3([k \in ks[1]..ks[2] |-> Cell3(c, jj, k)], ks[1], ks[2])], j*c.ns, j*c.ns + c.ns - 1)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* s / d in units of 1e-4                                                     *)
Myr(s, d0) == LET k == d0 \div 10000000 + 1
                  a == Abs(s) \div k d == d0 \div k
                  q == a \div d r == a % d t == (100 * r) \div d v == (100 * r) % d
              IN Sgn(s) * (10000 * q + 100 * t + (100 * v) \div d)
(* mean line-of-sight velocity in m/s                                         *)
MeanV(c, m) == (c.K * c.is * Myr(m[2], m[1] * MU(c))) \div (10 * c.id)
(* its variance in (km/s)^2                                                    *)
VarV(c, m) == LET p1 == Abs(Myr(m[2], m[1] * MU(c)))
                  p2 == Myr(m[3], m[1] * MU(c) * MU(c))
                  v  == p2 * 10 - ((p1 \div 10) * (p1 \div 10)) \div 10 - ((p1 \div 10) * (p1 % 10)) \div 50      \* 1e-5 delta^2
              IN (((c.K * c.K * c.is * c.is) \div (c.id * c.id)) * Max2(v, 0)) \div 100000
(* observed wavelength (0.001 A) of a line at rest wavelength w0, redshift    *)
(* zn/8, moving at v m/s                                                      *)
Lam0(w0, zn) == (w0 * (8 + zn)) \div 8
(* velocities up to 60 km/s at wavelengths up to 25000 A stay within 32 bits  *)
Observed(w0, zn, v) == LET l0 == Lam0(w0, zn) IN l0 + Sgn(v) * ((((l0 \div 1000) * Abs(v)) \div 29979) \div 10)
(* sin^2 i in 1e-6 of axis ratio and thickness in 1/100                        *)
Sin2(q, q0) == IF q < q0 THEN 1000000 ELSE 100 * Myr(10000 - q*q, 10000 - q0*q0)
(* arctan curve: at radius rt tan(pi t/12) the speed is Va t/6                 *)
Arctan(Va, t) == (1000 * Va * t) \div 6
=============================================================================

-------------------------------- MODULE Aper --------------------------------
(* Aperture corrections: light-weighted second velocity moments of what an    *)
(* extraction aperture collects, over the intrinsic value.                    *)
EXTENDS Fixed, Slit, TLC
(* ------------------------------------------------------------------------ *)
(* Extraction weights: a Gaussian whose full width at half maximum is half    *)
(* the n rows of the aperture; row j from the middle has 2^-(16 j^2/n^2)      *)
Weight(n, j, how) == IF how = "boxcar" THEN One ELSE Pow2(-((160000 * j * j) \div (n * n)))
At2(S, dy, dx) == LET hy == Len(S) \div 2 hx == Len(S[1]) \div 2
                  IN IF dy \in -hy..hy /\ dx \in -hx..hx THEN S[dy + hy + 1][dx + hx + 1] ELSE 0
(* what the aperture (rows -hy..hy, columns -hx..hx) collects of a unit of    *)
(* light at (j, k), seen through the stamp S (1e-5), in 1e-5; a.G: weights     *)
Seen(a, j, k) ==
  LET rows == (-a.hy)..a.hy cols == (-a.hx)..a.hx
      row(jj) == SumF([kk \in cols |-> At2(a.S, jj - j, kk - k)], -a.hx, a.hx)
      part(jj) == (row(jj) * (a.G[jj] \div 3)) \div 10000
  IN SumF([jj \in rows |-> part(jj)], -a.hy, a.hy)
Weights(hy, how) == TLCEval([j \in (-hy)..hy |-> Weight(2 * hy + 1, j, how)])
(* sum over a frame of light (rows -by..by, columns -bx..bx) of v(j, k) * Seen *)
Quot(s, d) == LET k == d \div 2000000 + 1 IN Milli(s \div k, d \div k)
Sq(x) == x * x
(* ------------------------------------------------------------------------ *)
(* Rotating galaxies: solid rotation w per sub-pixel, constant dispersion,    *)
(* light a + b r^2 + c z^2.  c: hy, hx half sizes; px, py padding; hx4: column *)
(* width in 1/V sub-pixels, V: unit; ox, oy: offsets in 1/V; orientation as in *)
(* Slit.                                                                      *)
Pos(c, j, k, l) == Frame(c, k * c.dx - c.ox, j * c.V - c.oy, l * c.V)
Dn(c) == Sq(c.V * c.pd * c.id)
LightOf(c, j, k) ==
  LET D == Dn(c) zs == -c.hy..c.hy
      r2 == SumF([l \in zs |-> LET f == Pos(c, j, k, l) IN Sq(f.x) + Sq(f.y)], -c.hy, c.hy)
      z2 == SumF([l \in zs |-> Sq(Pos(c, j, k, l).z)], -c.hy, c.hy)
  IN 1000 * c.a * (2 * c.hy + 1) + c.b * Milli(r2, D) + c.c * Milli(z2, D)
(* light-weighted square of the coordinate along the major axis, in 1/100     *)
Along(c, j, k) ==
  LET D == Dn(c)
  IN (SumF([l \in -c.hy..c.hy |-> LET f == Pos(c, j, k, l) y2 == Sq(f.y)
              IN c.a * Milli(y2, D) + (IF c.b = 0 THEN 0 ELSE c.b * Milli((Sq(f.x) + y2) * y2, D * D)) + (IF c.c = 0 THEN 0 ELSE c.c * Milli(Sq(f.z) * y2, D * D))], -c.hy, c.hy)) \div 10
FrameSums(c) ==                                       \* <<light, light * y^2>>
  LET bx == c.hx + c.px by == c.hy + c.py
      f == IF c.b + c.c > 0 THEN 1000 ELSE 10
      at(v, s) == CASE v <= 20000 -> (v * s) \div (10 * f)
                    [] v > 20000 /\ v <= 200000 -> IF s > 10000 THEN ((v \div 10) * s) \div f ELSE (v * s) \div (10 * f)
                    [] OTHER -> IF s > 10000 THEN ((v \div 100) * s) \div (f \div 10) ELSE ((v \div 10) * s) \div f
      grid == TLCEval([j \in (-by)..by |-> [k \in (-bx)..bx |-> LET s == Seen(c, j, k) IN
                 IF s = 0 THEN <<0, 0>> ELSE <<at(LightOf(c, j, k), s), at(Along(c, j, k), s)>>]])
      tot(i) == SumF([j \in (-by)..by |-> SumF([k \in (-bx)..bx |-> grid[j][k][i]], -bx, bx)], -by, by)
  IN <<tot(1), tot(2)>>
(* <y^2> in 1/1000                                                            *)
Mean2(c) == LET t == TLCEval(FrameSums(c)) IN IF t[2] < 200000000 THEN Quot(10 * t[2], t[1]) ELSE 10 * Quot(t[2], t[1])
(* kinematics: w^2 and 1000 sigma^2, from the ratio V/sigma (quarters) at     *)
(* radius R4 (quarter sub-pixels); vs < 0: pure rotation; 0: no rotation      *)
RotSq(m) == IF m.vs = 0 THEN 0 ELSE m.w * m.w
DispSq(m) == CASE m.vs < 0 -> 0 [] m.vs = 0 -> 1000 * m.w * m.w [] OTHER -> (1000 * m.w * m.w * m.R4 * m.R4) \div (m.vs * m.vs)
ApSq(c, m, mean) == DispSq(m) + (IF RotSq(m) = 0 THEN 0 ELSE LET r == mean * RotSq(m) IN IF r < 1000000 THEN (r * c.is * c.is) \div (c.id * c.id) ELSE (r \div (c.id * c.id)) * c.is * c.is)
RmsSq(m) == DispSq(m) + (RotSq(m) * m.R4 * m.R4 * 125) \div 2
(* ------------------------------------------------------------------------ *)
(* Dispersion profile ((r + core)/(1 + core))^d of r/re_mass and Sersic light *)
(* of r/re, r circularised.  g: nP; hx, hy: grid steps; ox, oy; PA as in Slit; *)
(* qq: 1 or 4 = inverse axis ratio; re, rm: radii (same unit); core 1e-5;      *)
(* d1000: exponent; n4: 4 x Sersic index                                      *)
Elliptic(g, j, k) == LET x == k * g.dx - g.ox y == j * g.dy - g.oy
                         yp == g.ps * x + g.pc * y xp == g.pc * x - g.ps * y
                     IN (yp * yp + g.qq * g.qq * xp * xp)            \* 25 (or 1) qq r^2
Radius(g, j, k) == LET e == Elliptic(g, j, k)                        \* in 1/1000 of the unit
                       s == IF g.pd = 5 THEN 5 ELSE 1  h == IF g.qq = 4 THEN 2 ELSE 1
                   IN IF e < 2100 THEN Root(1000000 * e) \div (s * h) ELSE IF e < 210000 THEN (100 * Root(10000 * e)) \div (10 * s * h) ELSE (1000 * Root(100 * e)) \div (10 * s * h)
Scaled(r, re, core) == (100 * (r \div re)) + (100 * (r % re)) \div re + core        \* r/re + core in 1e-5
Disp2(g, r) == LET x == Scaled(r, g.rm, g.core)
               IN IF g.d1000 = 0 THEN One ELSE Power(x, 100000 + g.core, 2 * g.d1000, 1000)
(* minus log2 of the light, in 1e-4, capped                                   *)
Faint(g, r) == LET x == Scaled(r, g.re, g.core)
                   xn == IF x = 0 THEN 0 ELSE IF g.n4 = 4 THEN 3 * (x \div 10) ELSE Power(x, 100000, 4, g.n4)      \* x^(1/n)
                   B == (500 * g.n4 - 324)                                  \* 1000 b_n
                   C == (B * 14427) \div 1000                               \* 1e4 b_n log2 e
               IN IF xn > 300 * One THEN 990000 ELSE LET v == (xn \div 3) * (C \div 10) IN IF xn \div 3 > 2000000000 \div (C \div 10) THEN 990000 ELSE v \div 1000
Fine(s, d) == LET k == d \div 20000 + 1 a == s \div k b == d \div k IN 100000 * (a \div b) + (100000 * (a % b)) \div b      \* s/d in 1e-5
Times(v, D) == IF v > 50000 THEN (IF D > 130000 /\ v > 250000 THEN ((v \div 100) * (D \div 30)) \div 10 ELSE ((v \div 100) * D) \div 300) ELSE IF D <= 40000 THEN (v * D) \div 30000 ELSE (v * (D \div 30)) \div 1000
(* brightness is counted from eight times fainter than the brightest cell     *)
Low(g) == SetMin({Faint(g, Radius(g, j, k)) : j \in (-g.hy)..g.hy, k \in (-g.hx)..g.hx}) + 30000
LightAt(g, r, low) == LET e == Faint(g, r) - low IN IF e >= 200000 THEN 0 ELSE Pow2(-e)
Sum2(g, low) ==                                                     \* <<light, sigma^2 light>>
  LET b == g.hy + g.py
      rows == (-b)..b cols == (-(g.hx + g.px))..(g.hx + g.px)
      cell(j, k) == LET s == Seen(g, j, k) r == Radius(g, j, k) IN IF s = 0 THEN <<0, 0>> ELSE
                      LET I == LightAt(g, r, low) IN LET v == ((I \div 1000) * s) \div 100 + ((I % 1000) * s) \div 100000 IN <<v, Times(v, Disp2(g, r))>>
      grid == TLCEval([j \in rows |-> [k \in cols |-> cell(j, k)]])
      tot(i) == SumF([j \in rows |-> SumF([k \in cols |-> grid[j][k][i]], -(g.hx + g.px), g.hx + g.px)], -b, b)
  IN <<tot(1), tot(2)>>
(* intrinsic: the same mean over the disc of radius R (1/1000 of the unit)     *)
NR == 80
Intrinsic(g) ==
  LET low == Faint(g, 0) + Min2(50000, (Faint(g, g.R) - Faint(g, 0)) \div 2)
      r(i) == ((2 * i + 1) * g.R) \div (2 * NR)
      cell(i) == LET I == LightAt(g, r(i), low) * (2 * i + 1) IN <<I \div 100, Times(I \div 100, Disp2(g, r(i)))>>
      f == TLCEval([i \in 0..(NR-1) |-> cell(i)])
  IN <<SumF([i \in 0..(NR-1) |-> f[i][1]], 0, NR - 1), SumF([i \in 0..(NR-1) |-> f[i][2]], 0, NR - 1)>>
ApDisp(g) == LET t == TLCEval(Sum2(g, Low(g))) IN Fine(t[2], t[1])           \* sigma^2 in 1e-5
InDisp(g) == LET t == TLCEval(Intrinsic(g)) IN Fine(t[2], t[1])
(* default aperture: twice the blurred size along the slit, at least the minor *)
(* axis: its square, from re, FWHM in the same unit                           *)
Width2(re, F, qn, qd, pc, pd) == LET a == 4 * pc * pc * (4 * re * re + F * F) b == 4 * pd * pd * ((4 * qn * qn * re * re) \div (qd * qd) + F * F)
                                 IN Max2(a, b) \div (pd * pd)
=============================================================================

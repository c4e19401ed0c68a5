-------------------------------- MODULE Stamp -------------------------------
(* The image of a galaxy as its slit sees it.                                *)
(* Images are sequences of rows, W by H; positions in 1/1000 pixel (pixel    *)
(* centres at whole pixels), lengths in 1/100000 arcsec.                     *)
EXTENDS Fixed, TLC
At(img, W, H, x, y) == IF x < 0 \/ y < 0 \/ x >= W \/ y >= H THEN 0 ELSE img[y * W + x + 1]
Mid(W, H) == <<(W - 1) * 500, (H - 1) * 500>>
(* --- angles are <<cosine, sine, radius>>, counted from up to the left      *)
Minus(a, b) == <<a[1] * b[1] + a[2] * b[2], a[2] * b[1] - a[1] * b[2], a[3] * b[3]>>
Scaled(v, a) == IF Abs(v) > 1000000 THEN (v \div a[3]) ELSE v
(* a point turned about c so that the direction a points up                   *)
Turn(p, c, a) == LET dx == p[1] - c[1] dy == p[2] - c[2]
                 IN <<c[1] + FloorDiv(dx * a[1] + dy * a[2], a[3]), c[2] + FloorDiv(dy * a[1] - dx * a[2], a[3])>>
(* back again                                                                 *)
Back(p, c, a) == Turn(p, c, <<a[1], -a[2], a[3]>>)
(* the image turned likewise by a quarter, a half or three quarters           *)
Upright(img, W, H, a) ==
  [i \in 1..(W * H) |-> LET X2 == 2 * ((i - 1) % W) - (W - 1) Y2 == 2 * ((i - 1) \div W) - (H - 1)
                            sx == (a[1] * X2) - (a[2] * Y2) + W - 1 sy == (a[2] * X2) + (a[1] * Y2) + H - 1
                        IN At(img, W, H, sx \div 2, sy \div 2)]
(* --- blurring: weight at k pixels of p for a width F                        *)
Ratio(p, F) == (10000 * p) \div F
Bell(k, u) == Pow2(-4 * k * k * ((u * u) \div 10000))
(* 1.2781 = 4 (2^(1/2.5) - 1): a Moffat profile of index 2.5                  *)
Moffat(k2, u) == Power(10000, 10000 + (((k2 * ((u * u) \div 100)) \div 100) * 1278) \div 1000, 5, 2)
Total(img) == SumSeq(img)
Rescale(img, t) ==
  LET s == Total(img)
      r == IF t < 2000000 THEN (t * 1000) \div (s \div 10) ELSE (t * 100) \div (s \div 100)
      fine == TLCEval(t < 2000000 /\ t > 0 /\ r < 4000 /\ s > 100000 /\ \A i \in 1..Len(img) : Abs(img[i]) < 8000000)
      r2 == ((t * 1000) \div (s \div 1000))
  IN [i \in 1..Len(img) |-> IF fine THEN ((img[i] \div 16) * (r2 \div 4) + 7812) \div 15625 ELSE (img[i] * r + 5000) \div 10000]
GaussBlur(img, W, H, u) ==
  LET cx == (W - 1) \div 2 cy == (H - 1) \div 2
      g == TLCEval([k \in 0..Max2(W, H) |-> Bell(k, u)])
      tot == g[0] + 2 * SumSeq([k \in 1..Max2(W, H) |-> g[k]])
      w == TLCEval([k \in 0..Max2(W, H) |-> (g[k] * 10000) \div (tot \div 3)])
      in(d, c, n) == d >= -c /\ d <= n - 1 - c
      row == TLCEval([i \in 1..(W * H) |-> LET x == (i - 1) % W y == (i - 1) \div W
              IN SumSeq([s \in 1..W |-> IF in(x - s + 1, cx, W) THEN (img[y * W + s] * w[Abs(x - s + 1)]) \div 30000 ELSE 0])])
  IN Rescale([i \in 1..(W * H) |-> LET x == (i - 1) % W y == (i - 1) \div W
              IN SumSeq([s \in 1..H |-> IF in(y - s + 1, cy, H) THEN (row[(s - 1) * W + x + 1] * w[Abs(y - s + 1)]) \div 30000 ELSE 0])], Total(img))
MoffatBlur(img, W, H, u) ==
  LET cx == (W - 1) \div 2 cy == (H - 1) \div 2
      w == TLCEval([k2 \in {a * a + b * b : a \in 0..W, b \in 0..H} |-> Moffat(k2, u)])
      in(d, c, n) == d >= -c /\ d <= n - 1 - c
  IN Rescale([i \in 1..(W * H) |-> LET x == (i - 1) % W y == (i - 1) \div W
              IN SumSeq([s \in 1..(W * H) |-> LET dx == x - ((s - 1) % W) dy == y - ((s - 1) \div W)
                 IN IF in(dx, cx, W) /\ in(dy, cy, H) THEN (img[s] * w[dx * dx + dy * dy] + 5000) \div 10000 ELSE 0])], Total(img))
Blurred(img, W, H, kind, u) == IF kind = "Moffat" THEN MoffatBlur(img, W, H, u) ELSE GaussBlur(img, W, H, u)
(* --- pixels of size p, of which position o is at 0, averaged over n pixels   *)
(* of size b, of which position c is at 0                                      *)
Edge(k, o, p) == FloorDiv((1000 * k - o - 500) * (p \div 10), 100)
Common1(lo, hi, a, w) == Max2(0, Min2(hi, a + w) - Max2(lo, a))
Mean1(v, o, p, n, c, b) ==
  [r \in 1..n |-> LET lo == Edge(r - 1, c, b) hi == lo + b
                  IN FloorDiv(SumSeq([i \in 1..Len(v) |-> Common1(lo, hi, Edge(i - 1, o, p), p) * v[i]]) + (b \div 2), b)]
Rebinned(img, W, H, o, p, n, c, b) ==
  LET cols == TLCEval([x \in 1..W |-> Mean1([y \in 1..H |-> img[(y - 1) * W + x]], o[2], p, n, c[2], b)])
      rows == TLCEval([y \in 1..n |-> Mean1([x \in 1..W |-> cols[x][y]], o[1], p, n, c[1], b)])
  IN [i \in 1..(n * n) |-> rows[((i - 1) \div n) + 1][((i - 1) % n) + 1]]
(* --- one way of showing it: C describes the galaxy and what is asked for     *)
Pixel(C) == IF C.down THEN C.b ELSE C.p
NewSize(C) == (C.H * C.p) \div C.b
NewAt(C) == <<(NewSize(C) - 1) * 500, IF C.hasm0 THEN C.m0 ELSE (NewSize(C) - 1) * 500>>
Size(C) == IF C.down THEN <<NewSize(C), NewSize(C)>> ELSE <<C.W, C.H>>
Slit(C) == <<C.pc, C.ps, C.pd>>
Major(C) == <<C.qc, C.qs, C.qd>>
Moved(C, q) == IF C.rot THEN Turn(q, Mid(C.W, C.H), Slit(C)) ELSE q
(* where the galaxy's light and the target of the slit are in the figure        *)
Light(C) == IF C.show THEN C.ser ELSE C.sci
Galaxy(C) == IF C.down THEN NewAt(C) ELSE Moved(C, Light(C))
Target(C) == IF C.down THEN LET s == Moved(C, C.sci) g == Moved(C, Light(C)) a == NewAt(C)
                            IN <<a[1] + FloorDiv((s[1] - g[1]) * (C.p \div 10), C.b \div 10), a[2] + FloorDiv((s[2] - g[2]) * (C.p \div 10), C.b \div 10)>>
             ELSE Moved(C, C.sci)
(* the exact image for turns by quarters                                        *)
Seen1(C) == TLCEval(IF C.rot THEN Upright(C.stamp, C.W, C.H, Slit(C)) ELSE C.stamp)
Seen2(C) == TLCEval(IF C.rot /\ C.conv THEN Blurred(Seen1(C), C.W, C.H, C.kind, Ratio(C.p, C.fw)) ELSE Seen1(C))
Shown(C) == TLCEval(IF C.down THEN Rebinned(Seen2(C), C.W, C.H, Moved(C, Light(C)), C.p, NewSize(C), NewAt(C), C.b) ELSE Seen2(C))
(* --- the part in view                                                         *)
Span(C) == IF C.n > 0 THEN (C.n * (C.b \div 10) * 1000) \div (Pixel(C) \div 10) ELSE 200000000 \div Pixel(C)
ViewX(C) == <<Galaxy(C)[1] - (Span(C) \div 2), Galaxy(C)[1] + (Span(C) \div 2)>>
ViewY(C) == IF C.hasm0 THEN LET y == Galaxy(C)[2] - (((C.m0 + 500) * (C.b \div 10)) \div (Pixel(C) \div 10)) IN <<y, y + Span(C)>>
            ELSE <<Galaxy(C)[2] - (Span(C) \div 2), Galaxy(C)[2] + (Span(C) \div 2)>>
(* --- outline of the slit: inclined ends, turned unless the image is           *)
Shear == 66065   \* tan 3.78 degrees
Px(C, l) == (l * 100) \div (Pixel(C) \div 10)
Corners(C) ==
  LET t == Target(C) w == Px(C, C.wid) \div 2 l == Px(C, C.len) \div 2 o == Px(C, C.yoff) s == (((2 * w) \div 10) * Shear) \div 100000
      pts == << <<-w, -o - l + s>>, <<w, -o - l>>, <<w, -o + l - s>>, <<-w, -o + l>> >>
  IN [i \in 1..4 |-> LET q == <<t[1] + pts[i][1], t[2] + pts[i][2]>> IN IF C.rot THEN q ELSE Back(q, t, Slit(C))]
(* --- axes of the galaxy                                                       *)
Lean(C) == IF C.rot THEN Minus(Major(C), Slit(C)) ELSE Major(C)
Grown(C, l) == IF C.conv THEN Root((l \div 10) * (l \div 10) + (C.psf \div 20) * (C.psf \div 20)) * 10 ELSE l
HalfA(C) == Px(C, Grown(C, C.re))
HalfB(C) == Px(C, Grown(C, (C.re \div 1000) * C.q))
EndA(C) == LET a == Lean(C) h == HalfA(C) IN <<FloorDiv(-h * a[2], a[3]), FloorDiv(h * a[1], a[3])>>
EndB(C) == LET a == Lean(C) h == HalfB(C) IN <<FloorDiv(h * a[1], a[3]), FloorDiv(h * a[2], a[3])>>
Bar(C) == IF C.kpc > 0 THEN Px(C, ((C.re \div 100) * 100000) \div (C.kpc \div 100)) ELSE Px(C, 25000)
(* --- second moments of an elliptical source, in 1/1000 pixel squared          *)
Moments(C) ==
  LET a == Lean(C)
      c1 == FloorDiv(20000 * a[1], a[3])
      s1 == FloorDiv(20000 * a[2], a[3])
      cc == (c1 * c1) \div 40000
      ss == 10000 - cc
      sc == FloorDiv(c1 * s1, 40000)
      f(v) == IF C.down THEN FloorDiv(v * ((C.p * 100) \div C.b), 100) ELSE v
      g(v) == f(f(v))
      blur == IF C.rot /\ C.conv THEN (((((10000000 \div Ratio(C.p, C.fw)) * 1000) \div Ratio(C.p, C.fw)) * 10000) \div 5545) ELSE 0
      own == IF C.down THEN 83 + g(83) ELSE 0
  IN << g((C.s1 * ss + C.s2 * cc) \div 10000 + blur) + own, g(FloorDiv((C.s2 - C.s1) * sc, 10000)), g((C.s1 * cc + C.s2 * ss) \div 10000 + blur) + own >>
(* --- brightness: half of the pixels in view that are nearest to 0             *)
Rounds(v) == LET f == FloorDiv(v + 500, 1000) IN IF Abs(v + 500 - 1000 * f) <= 4 THEN {f - 1, f} ELSE IF v + 500 - 1000 * f >= 996 THEN {f, f + 1} ELSE {f}
Faint(img, W, H, x0, x1, y0, y1) ==
  LET v == SortSeq([i \in 1..(Max2(0, Min2(x1, W) - Max2(x0, 0)) * Max2(0, Min2(y1, H) - Max2(y0, 0))) |->
                     LET w == Min2(x1, W) - Max2(x0, 0) IN Abs(At(img, W, H, Max2(x0, 0) + ((i - 1) % w), Max2(y0, 0) + ((i - 1) \div w)))], LAMBDA a, b : a < b)
      m == (Len(v) + 1) \div 2
  IN IF m = 0 THEN -1 ELSE (v[(m + 1) \div 2] + v[(m \div 2) + 1]) \div 2
(* --- misalignment with the slit, within a quarter turn; tenths of a degree    *)
Fold(d) == LET m == ((d % 1800) + 1800) % 1800 IN IF m > 900 THEN m - 1800 ELSE m
Misaligned(galaxy, slit, image) == Fold(galaxy - (slit - image))
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
=============================================================================

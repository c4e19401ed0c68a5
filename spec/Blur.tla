-------------------------------- MODULE Blur --------------------------------
(* Blurring by the seeing and by the instrument.                             *)
(* A stamp is a function on -hy..hy \X -hx..hx given as a sequence of rows;   *)
(* lengths in sub-pixels, stamp values relative to its peak in 1/10000.       *)
EXTENDS Common
RECURSIVE SumB(_, _, _)
SumB(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumB(f, lo + 1, hi)
(* the seeing's FWHM is F4/4 sub-pixels; the stamp reaches one FWHM out       *)
Half(F4) == F4 \div 4
(* padding: FWHM times p/2, to the nearest sub-pixel                          *)
Pad(F4, p) == (F4 * p + 4) \div 8
At(S, dy, dx) == LET hy == Len(S) \div 2 hx == Len(S[1]) \div 2
                 IN IF dy \in -hy..hy /\ dx \in -hx..hx THEN S[dy + hy + 1][dx + hx + 1] ELSE 0
(* light of the source at (j, k): rings of r^2 = 0, 1, 2 about <<jy, kx>>      *)
Src(w, j, k, jy, kx) == LET r == (j - jy)*(j - jy) + (k - kx)*(k - kx) IN IF r <= 2 THEN w[r + 1] ELSE 0
(* c: ny, nx sub-pixels in the aperture, py, px padding, S stamp, w rings,    *)
(*    jy, kx source position (0-based, in the aperture)                       *)
Conv(c, j, k) == LET (* only light inside the padded frame is seen             *)
                     inside(a, b) == a >= -c.py /\ a < c.ny + c.py /\ b >= -c.px /\ b < c.nx + c.px
                     g == [i \in 1..9 |-> LET a == c.jy + ((i - 1) \div 3) - 1 b == c.kx + ((i - 1) % 3) - 1
                                          IN IF inside(a, b) THEN Src(c.w, a, b, c.jy, c.kx) * At(c.S, j - a, k - b) ELSE 0]
                 IN SumB(g, 1, 9)
Light(c) == LET g == [i \in 1..9 |-> LET a == c.jy + ((i - 1) \div 3) - 1 b == c.kx + ((i - 1) % 3) - 1
                                     IN IF a >= -c.py /\ a < c.ny + c.py /\ b >= -c.px /\ b < c.nx + c.px THEN Src(c.w, a, b, c.jy, c.kx) ELSE 0]
            IN SumB(g, 1, 9)
RowConv(c, j, ks) == SumB([k \in ks[1]..ks[2] |-> Conv(c, j, k)], ks[1], ks[2])
Frame(c) == SumB([j \in (-c.py)..(c.ny + c.py - 1) |-> RowConv(c, j, <<-c.px, c.nx + c.px - 1>>)], -c.py, c.ny + c.py - 1)
Patch(c, js, ks) == SumB([j \in js[1]..js[2] |-> RowConv(c, j, ks)], js[1], js[2])
(* share of the light, in 1e-5, that falls on a patch: renormalised so that    *)
(* the padded frame holds all of it                                           *)
Share(a, b, light) == LET k == b \div 2000000 + 1 d == b \div k r == (a \div k)      \* a <= b
                          q1 == (r * 1000) \div d q2 == (((r * 1000) % d) * 100) \div d
                      IN (q1 * 100 + q2) * light
Image(c, ns) == LET f == Frame(c) l == Light(c)
                IN [r \in 1..(c.ny \div ns) |-> Share(Patch(c, <<(r-1)*ns, r*ns - 1>>, <<0, c.nx - 1>>), f, l)]
CubeImage(c, ns) == LET f == Frame(c) l == Light(c)
                    IN [r \in 1..(c.ny \div ns) |-> [q \in 1..(c.nx \div ns) |-> Share(Patch(c, <<(r-1)*ns, r*ns - 1>>, <<(q-1)*ns, q*ns - 1>>), f, l)]]
(* log2 of a Gaussian stamp at offset (dy, dx) sub-pixels, in 1/1000           *)
GaussLog2(F4, dy, dx) == -((64000 * (dy*dy + dx*dx)) \div (F4 * F4))
(* with dithers d sub-pixels apart, each negative image has half the light     *)
Dithered(P, d, dy, dx) == 2 * At(P, dy, dx) - At(P, dy + d, dx) - At(P, dy - d, dx)
(* narrow lines (dispersion r/100 channels) are computed on a finer grid       *)
Narrow(r) == 235 * r < 10000
=============================================================================

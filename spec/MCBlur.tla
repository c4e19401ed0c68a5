------------------------------- MODULE MCBlur -------------------------------
EXTENDS Blur, TLC
VARIABLES c, done
S1 == <<<<1000, 4000, 1000>>, <<4000, 10000, 4000>>, <<1000, 4000, 1000>>>>
S2 == <<<<100, 800, 1500, 800, 100>>, <<900, 5000, 7000, 5000, 900>>, <<1500, 7000, 10000, 7000, 1500>>, <<900, 5000, 7000, 5000, 900>>, <<100, 800, 1500, 800, 100>>>>
S0 == <<<<10000>>>>
Init == /\ c \in [ny : {4}, nx : {2, 3}, py : {0, 2}, px : {0, 1}, S : {S0, S1, S2}, w : {<<1, 0, 0>>, <<4, 2, 1>>}, jy : 0..3, kx : 0..2]
        /\ c.jy < c.ny /\ c.kx < c.nx /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
Total == SumB(Image(c, 1), 1, c.ny)
(* nothing is created: at most the light of the frame, and all of it if the    *)
(* blurred light stays on the detector                                        *)
Conserved == /\ Total <= 100000 * Light(c)
             /\ (c.py = 0 /\ c.px = 0) => Total >= 99900 * Light(c)
(* no blurring leaves the image alone                                          *)
Identity == c.S = S0 => \A j \in 1..c.ny : Abs(Image(c, 1)[j] - 100000 * SumB([k \in 0..(c.nx-1) |-> Src(c.w, j - 1, k, c.jy, c.kx)], 0, c.nx - 1)) <= 100
(* turned end for end, the image is turned end for end                         *)
Flip == LET f == [c EXCEPT !.jy = c.ny - 1 - @, !.kx = c.nx - 1 - @] IN \A j \in 1..c.ny : Image(f, 1)[c.ny + 1 - j] = Image(c, 1)[j]
(* the peak stays where the object is                                          *)
Peak == \A j \in 1..c.ny : Image(c, 1)[j] <= Image(c, 1)[c.jy + 1]
Binned == c.ny % 2 = 0 => \A r \in 1..(c.ny \div 2) : Abs(Image(c, 2)[r] - Image(c, 1)[2*r - 1] - Image(c, 1)[2*r]) <= 30
CubeRows == \A r \in 1..c.ny : Abs(SumB(CubeImage(c, 1)[r], 1, c.nx) - Image(c, 1)[r]) <= 10 * c.nx * Light(c)
Dither == \A d \in 0..3 : LET t == SumB([dy \in -6..6 |-> SumB([dx \in -2..2 |-> Dithered(c.S, d, dy, dx)], -2, 2)], -6, 6) IN t = 0
All == done => Conserved /\ Identity /\ Flip /\ Peak /\ Binned /\ CubeRows /\ Dither
=============================================================================

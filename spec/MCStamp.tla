------------------------------- MODULE MCStamp ------------------------------
(* All ways of showing small images; the cases printed are replayed.          *)
EXTENDS Stamp, Json
CONSTANTS Vals, W, H, P, B
VARIABLES img, way, done
Quarters == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>}
Flag == {TRUE, FALSE}
Ways == [rot : Flag, conv : Flag, down : Flag, show : Flag, n : {0, 5}, hasm0 : Flag, a : Quarters]
Rest == [rot |-> TRUE, conv |-> FALSE, down |-> TRUE, show |-> TRUE, n |-> 5, hasm0 |-> TRUE, a |-> <<0, 1, 1>>]
(* every way for one image, one way for every image of few pixels              *)
Mark == [i \in 1..(W * H) |-> IF i = W + 3 THEN 9000 ELSE IF i = 2 * W THEN 4000 ELSE 1000]
Sparse == {[i \in 1..(W * H) |-> IF i = j THEN v ELSE IF i = k THEN 1000 ELSE 100] : j \in 1..(W * H), k \in 1..(W * H), v \in Vals}
Init == done = FALSE /\ ((img = Mark /\ way \in Ways) \/ (way = Rest /\ img \in Sparse))
Next == ~done /\ done' = TRUE /\ UNCHANGED <<img, way>> /\ (img = Mark => PrintT(<<"CASE", ToJson(way)>>))
C == [W |-> W, H |-> H, p |-> P, b |-> B, ser |-> <<2000, 1250>>, sci |-> <<1500, 2000>>, pc |-> way.a[1], ps |-> way.a[2], pd |-> way.a[3],
      qc |-> 3, qs |-> 4, qd |-> 5, rot |-> way.rot, conv |-> way.conv, down |-> way.down, show |-> way.show, n |-> way.n, hasm0 |-> way.hasm0, m0 |-> 1750,
      yoff |-> 10000, wid |-> 70000, len |-> 200000, re |-> 50000, q |-> 500, kpc |-> 0, fw |-> 20000, psf |-> 30000, kind |-> "Gaussian", stamp |-> img]
(* four quarters make a whole, and the points move with the image               *)
Four == done => LET u(i, a) == Upright(i, W, H, a) q == <<0, 1, 1>> IN
   W = H => u(u(u(u(img, q), q), q), q) = img /\ u(u(img, q), q) = u(img, <<-1, 0, 1>>) /\ u(img, <<1, 0, 1>>) = img
Follow == done => LET v == TLCEval(Upright(img, W, H, way.a)) IN
   \A x \in 0..(W - 1) : \A y \in 0..(H - 1) :
     LET t == Turn(<<1000 * x, 1000 * y>>, Mid(W, H), way.a) IN
       (t[1] >= 0 /\ t[2] >= 0 /\ t[1] <= 1000 * (W - 1) /\ t[2] <= 1000 * (H - 1)) => At(v, W, H, t[1] \div 1000, t[2] \div 1000) = At(img, W, H, x, y)
Return == LET t == Turn(<<1700, 300>>, Mid(W, H), way.a) IN Back(t, Mid(W, H), way.a) = <<1700, 300>>
(* averaging keeps the light, equal pixels keep the image                       *)
Light0 == done => LET n == 4 + (W * P) \div B s == Rebinned(img, W, H, Mid(W, H), P, n, <<(n - 1) * 500, (n - 1) * 500>>, B)
                      b == B \div 1000 p == P \div 1000
                  IN Abs(Total(s) * b * b - Total(img) * p * p) <= n * n * b * b
Same == done => (W = H => Rebinned(img, W, H, <<700, 1300>>, P, W, <<700, 1300>>, P) = img)
(* blurring keeps the light, and a lone source in its place                      *)
Keeps == done => \A k \in {"Gaussian"} : LET s == TLCEval(Blurred(img, W, H, k, 6000)) IN Abs(Total(s) - Total(img)) <= W * H + Total(img) \div 500
Place == done => (img # Mark => LET s == TLCEval(Blurred([i \in 1..(W * H) |-> IF i = W + 2 THEN 9000 ELSE 10], W, H, "Gaussian", 8000)) IN \A i \in 1..(W * H) : s[i] <= s[W + 2])
(* the rows in view are those of the spectrum, with the galaxy on its row         *)
Aligned == (way.hasm0 /\ way.n > 0) => LET y == ViewY(C) px == (B * 1000) \div (IF way.down THEN B ELSE P) IN
   /\ Abs(y[2] - y[1] - way.n * px) <= 8 /\ Abs(Galaxy(C)[2] - y[1] - ((1750 + 500) * (px \div 10)) \div 100) <= 8
   /\ way.down => Abs(y[1] + 500) <= 2 /\ Abs(y[2] - way.n * 1000 + 500) <= 2
Centred == LET x == ViewX(C) IN Abs(x[1] + x[2] - 2 * Galaxy(C)[1]) <= 2
(* the outline is about the target, and turns with the image                      *)
Outline == LET c == Corners(C) IN \E r \in {[C EXCEPT !.rot = ~@]} : LET d == Corners(r) IN
   (~way.down) => \A i \in 1..4 : LET q == IF way.rot THEN d[i] ELSE c[i] t == IF way.rot THEN c[i] ELSE d[i] IN
      LET z == Turn(q, Mid(W, H), way.a) IN Abs(z[1] - t[1]) <= 3 /\ Abs(z[2] - t[2]) <= 3
Axes == EndA(C)[1] * EndB(C)[1] + EndA(C)[2] * EndB(C)[2] \in (-20000)..20000
All == Four /\ Follow /\ Return /\ Light0 /\ Same /\ Keeps /\ Place /\ Aligned /\ Centred /\ Outline /\ Axes
=============================================================================

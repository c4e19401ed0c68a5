------------------------------- MODULE MCMock -------------------------------
(* All detectors of small requests; the cases printed are replayed.          *)
EXTENDS Mock, TLC, Json
CONSTANTS Lengths, Leasts
VARIABLES r, done
Turns == {<<1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>}
Incl == {<<1, 0, 1>>, <<4, 3, 5>>}
Requests == { [L8 |-> l, least |-> m, ns |-> s, W |-> w, ysh4 |-> y, pc |-> t[1], ps |-> t[2], pd |-> t[3], ic |-> i[1], is |-> i[2], id |-> i[3],
               a |-> 1, b |-> q[1], c |-> q[2], d |-> 0] :
              l \in Lengths, m \in Leasts, s \in {1, 2}, w \in {8}, y \in {0, 2, -1}, t \in Turns, i \in Incl, q \in {<<1, 0>>, <<2, 1>>} }
Init == r \in Requests /\ done = FALSE
Simple == r.ysh4 = 0 /\ r.pd = 1 /\ r.ps = 0 /\ r.id = 1 /\ r.b = 1
Next == ~done /\ done' = TRUE /\ UNCHANGED r /\ (Simple => PrintT(<<"CASE", ToJson([L8 |-> r.L8, least |-> r.least, ns |-> r.ns])>>))
(* the slit is covered, by no more rows than needed                           *)
Covered == Rows(r) >= r.least /\ 8 * Rows(r) >= r.L8 /\ (Rows(r) > r.least => 8 * (Rows(r) - 1) < r.L8)
(* without an offset both halves of the slit see the same light               *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Centred == (done /\ r.ysh4 = 0) => Rev(SlitObs(r)) = SlitObs(r)
Offset == done => LET up == SlitObs([r EXCEPT !.ysh4 = @ + 4]) f == SlitObs(r) IN \A j \in 1..(Rows(r) - 1) : up[j + 1] = f[j]
Opposite == done => Rev(SlitObs([r EXCEPT !.ysh4 = -@])) = SlitObs(r)
(* a slit of n pixels collects what the cube has behind it                    *)
CubeSum == done => LET q == TLCEval(CubeObs(r)) IN
   \A n \in {1, 2} : (Rows(r) - n) % 2 = 0 =>
      LET f == SlitObs([r EXCEPT !.W = 4 * r.ns * n]) IN \A j \in 1..Rows(r) : Abs(Through(q[j], n) - f[j]) <= 2 * n * r.ns
All == Covered /\ Centred /\ Offset /\ Opposite /\ CubeSum
=============================================================================

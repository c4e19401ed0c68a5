------------------------------ MODULE MCSpatial ------------------------------
(* Design: whatever the image size, position and separation, the kept block   *)
(* is contiguous, inside the image, contains the object row and reconstructs  *)
(* absolute positions.                                                        *)
EXTENDS Spatial, TLC, Json
CONSTANTS NMax, Emit
VARIABLES n, mu, sep, ypos, done
Init == /\ n \in {9, 14, NMax} /\ mu \in {500 * k + 200 : k \in 2..(2*NMax-6)} /\ mu < 1000 * (n-2)
        /\ sep \in {5000, 8300, 9000, 10200, 14000} /\ ypos \in {mu, mu + 1200, mu - 1900, mu + 4100}
        /\ ypos >= 0 /\ ypos <= 1000 * (n-1) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, mu, sep, ypos>>
Spec == Init /\ [][Next]_<<n, mu, sep, ypos, done>>
m0 == Centre(mu, ypos)
l == Left(m0, Cut(mu, sep))
r == Right(n, m0, Cut(mu, sep))
Inside == 0 <= l /\ l < r /\ r <= n - 1
Contains == l <= m0 /\ m0 <= r
Centred == (l > 0 /\ r < n - 1) => m0 - l = r - m0
Reconstruct == LET t == Rows(l, r) IN \A i \in 1..Len(t) : t[i] = (i - 1) + l
NearNominal == Abs(1000 * m0 - ypos) <= 2500
EmitCase == (Emit /\ done) => PrintT(<<"CASE", ToJson([n |-> n, mu |-> mu, sep |-> sep, ypos |-> ypos])>>)
=============================================================================

------------------------------ MODULE MCMotion ------------------------------
EXTENDS Motion, TLC
VARIABLES c, done
Turns == {<<1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>}
Incl == {<<1, 0, 1>>, <<0, 1, 1>>, <<4, 3, 5>>}
Views == { [rows |-> 3, ns |-> s, W |-> w, M4 |-> m, Xc |-> x, pc |-> t[1], ps |-> t[2], pd |-> t[3], u |-> 4, K |-> 20,
            ic |-> i[1], is |-> i[2], id |-> i[3], a |-> ab[1], b |-> ab[2], c |-> ab[3], d |-> 0] :
            s \in {1, 2}, w \in {4, 8}, m \in {0, 2, 4}, x \in {-4, 0}, t \in Turns, i \in Incl, ab \in {<<1, 0, 0>>, <<0, 1, 2>>} }
Init == c \in {v \in Views : v.ns = 1 \/ v.pd * v.id <= 5 \/ v.b = 0} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
V(v, j) == MeanV(v, Moments(v, j, AllCols(v)))
Q(v, j) == VarV(v, Moments(v, j, AllCols(v)))
Js == 0..(c.rows - 1)
One(a, b) == Abs(a - b) <= 1 + c.K
Reversed == LET v == [c EXCEPT !.K = -@] IN \A j \in Js : One(V(v, j), -V(c, j)) /\ Q(v, j) = Q(c, j)
HalfTurn == LET v == [c EXCEPT !.pc = -@, !.ps = -@] IN c.Xc = 0 => \A j \in Js : One(V(v, j), -V(c, j)) /\ Abs(Q(v, j) - Q(c, j)) <= 2
Mirror == LET v == [c EXCEPT !.ps = -@, !.Xc = -@] IN \A j \in Js : One(V(v, j), V(c, j))
Flip == LET v == [c EXCEPT !.ps = -@, !.K = -@, !.M4 = 4 * (c.rows - 1) - @] IN \A j \in Js : One(V(v, c.rows - 1 - j), V(c, j))
FaceOn == c.is = 0 => \A j \in Js : V(c, j) = 0 /\ Q(c, j) = 0
Across == (c.pc = 0 /\ c.Xc = 0) => \A j \in Js : V(c, j) = 0
Along == c.pc = c.pd => \A j \in Js : Moments(c, j, AllCols(c))[2] * c.K * (2*j*2 - c.M4) * c.is >= 0
Redshifts == \A w \in {6564600, 4960295}, z \in {0, 4, 12} :
               /\ Lam0(w, z) * 8 \in (w * (8 + z) - 8)..(w * (8 + z))
               /\ \A v \in {-60000, 0, 60000} : LET d == Observed(w, z, v) - Lam0(w, z)
                                                IN Abs(d - ((Lam0(w, z) \div 10000) * (v \div 1000)) \div 30) <= 12
All == done => Reversed /\ HalfTurn /\ Mirror /\ Flip /\ FaceOn /\ Across /\ Along /\ Redshifts
=============================================================================

------------------------------- MODULE MCSlit -------------------------------
(* The geometry has the symmetries users rely on.  One state per view.        *)
EXTENDS Slit, TLC
VARIABLES c, done
Turns == {<<1, 0, 1>>, <<-1, 0, 1>>, <<0, 1, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>}
Incl == {<<1, 0, 1>>, <<0, 1, 1>>, <<4, 3, 5>>}
Views == { [rows |-> r, ns |-> s, W |-> w, M4 |-> m, Xc |-> x, pc |-> t[1], ps |-> t[2], pd |-> t[3],
            ic |-> i[1], is |-> i[2], id |-> i[3], a |-> ab[1], b |-> ab[2], c |-> ab[3], d |-> 0] :
            r \in {3}, s \in {1, 2}, w \in {4, 12}, m \in {2, 3}, x \in {-3, 0}, t \in Turns, i \in Incl, ab \in {<<1, 1, 0>>, <<0, 1, 2>>} }
Init == c \in Views /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
HalfTurn(v) == [v EXCEPT !.pc = -@, !.ps = -@, !.Xc = -@]
Mirror(v) == [v EXCEPT !.ps = -@, !.Xc = -@]
(* rows at the same distance from the object see the same sky                 *)
WholeShift == \A j \in 0..(c.rows - 2) : RowFlux([c EXCEPT !.M4 = @ + 4], j + 1, AllCols(c)) = RowFlux(c, j, AllCols(c))
Orbits == (c.Xc = 0 /\ c.M4 % 2 = 0 /\ c.pd * c.id <= 5) => LET v == [c EXCEPT !.a = 0, !.b = 0, !.c = 0, !.d = 1] IN Image(Mirror(v)) = Image(v)
Mirrored == Image(Mirror(c)) = Image(c)
Flip == LET f == [c EXCEPT !.M4 = 4 * (c.rows - 1) - @, !.ps = -@] IN \A j \in 0..(c.rows - 1) : RowFlux(f, c.rows - 1 - j, AllCols(c)) = RowFlux(c, j, AllCols(c))
(* turning the galaxy by half a turn shows the slit its other side            *)
Turned == LET f == [HalfTurn(c) EXCEPT !.M4 = 4 * (c.rows - 1) - @] IN \A j \in 0..(c.rows - 1) : RowFlux([f EXCEPT !.Xc = c.Xc], c.rows - 1 - j, AllCols(c)) = RowFlux([c EXCEPT !.Xc = -@], j, AllCols(c))
TurnedRound == Image([HalfTurn(c) EXCEPT !.Xc = 0]) = Image([c EXCEPT !.Xc = 0]) \/ c.Xc # 0
(* widening by a column on each side adds those columns and nothing else      *)
Widened == LET w == [c EXCEPT !.W = @ + 8] IN
   \A j \in 0..(c.rows - 1) :
      /\ Abs(RowFlux(w, j, <<1, NCols(w) - 2>>) - RowFlux(c, j, AllCols(c))) <= 3
      /\ Abs(RowFlux(w, j, AllCols(w)) - RowFlux(c, j, AllCols(c)) - RowFlux(w, j, <<0, 0>>) - RowFlux(w, j, <<NCols(w)-1, NCols(w)-1>>)) <= 6
(* distances are kept: r^2 + z^2 does not see the orientation                 *)
Rigid == LET v == [c EXCEPT !.a = 0, !.b = 1, !.c = 1] u == [v EXCEPT !.pc = 1, !.ps = 0, !.pd = 1, !.ic = 1, !.is = 0, !.id = 1]
         IN \A j \in 0..(c.rows - 1) : Abs(RowFlux(v, j, AllCols(v)) - RowFlux(u, j, AllCols(u))) <= 3
(* the columns of the cube within the slit carry the slit's flux              *)
CubeSlit == LET s == [c EXCEPT !.W = 4 * c.ns * (c.rows - 2), !.Xc = 0] q == [c EXCEPT !.Xc = 0] IN
   c.Xc = 0 => \A j \in 1..c.rows : Abs(SumF(Cube(q)[j], 2, c.rows - 1) - RowFlux(s, j - 1, AllCols(s))) <= 2 * c.rows + 2
All == done => WholeShift /\ Mirrored /\ Flip /\ Turned /\ TurnedRound /\ Widened /\ Rigid /\ CubeSlit /\ Orbits
=============================================================================

------------------------------- MODULE MCAper --------------------------------
EXTENDS Aper
CONSTANTS Offs, Turns, Lights
VARIABLES v, done
T == <<<<1, 0, 1>>, <<0, 1, 1>>, <<4, 3, 5>>, <<3, -4, 5>>>>
I == <<<<0, 1, 1>>, <<4, 3, 5>>>>
L == <<<<1, 0, 0>>, <<1, 2, 0>>, <<2, 0, 1>>>>
Delta == <<<<100000>>>>
Wide == <<<<5000, 10000, 5000>>, <<10000, 40000, 10000>>, <<5000, 10000, 5000>>>>
Shapes == [t : Turns, i : 1..2, l : Lights, ox : {x - 1 : x \in Offs}, oy : {x - 1 : x \in Offs}, hx : {0, 1}, how : {"optimal", "boxcar"}, wide : BOOLEAN]
Init == v \in Shapes /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED v
Spec == Init /\ [][Next]_<<v, done>>
Make(r) == TLCEval([hy |-> 1, hx |-> r.hx, py |-> IF r.wide THEN 1 ELSE 0, px |-> IF r.wide THEN 1 ELSE 0, V |-> 1, dx |-> 1, ox |-> r.ox, oy |-> r.oy,
            pc |-> T[r.t][1], ps |-> T[r.t][2], pd |-> T[r.t][3], ic |-> I[r.i][1], is |-> I[r.i][2], id |-> I[r.i][3],
            a |-> L[r.l][1], b |-> L[r.l][2], c |-> L[r.l][3], S |-> IF r.wide THEN Wide ELSE Delta, how |-> r.how, G |-> Weights(1, r.how)])
Same(a, b) == Abs(a - b) * 200 <= Max2(Abs(a), 200)
(* symmetries of the light-weighted moment                                    *)
Symmetric == LET c == Make(v) m == TLCEval(Mean2(c))
             IN /\ Same(m, Mean2([c EXCEPT !.ox = -v.ox, !.oy = -v.oy, !.pc = -c.pc, !.ps = -c.ps]))
                /\ Same(m, Mean2([c EXCEPT !.ox = -v.ox, !.ps = -c.ps, !.ic = c.ic]))
                /\ Same(m, Mean2([c EXCEPT !.oy = -v.oy, !.ps = -c.ps]))
                /\ m >= 0
(* no rotation: ratio one; rotation and dispersion add; faster is broader      *)
Laws == LET c == Make(v) m == TLCEval(Mean2(c)) R == 6
            rot(k) == [w |-> 3, vs |-> k, R4 |-> R]
        IN /\ ApSq(c, [w |-> 3, vs |-> 0, R4 |-> R], m) = RmsSq([w |-> 3, vs |-> 0, R4 |-> R])
           /\ \A k \in {1, 4, 9} : ApSq(c, rot(k), m) = DispSq(rot(k)) + ApSq(c, rot(-1), m)
           /\ \A k \in {1, 4} : ApSq(c, rot(k), m) * 100 >= 100 * DispSq(rot(k))
           /\ DispSq(rot(4)) >= DispSq(rot(9))
(* a dispersion-supported galaxy with the same scene                          *)
Gal(r, qq, pa) == TLCEval([hy |-> 1, hx |-> 1, py |-> 2, px |-> 2, dx |-> 1, dy |-> 2, ox |-> r.ox, oy |-> r.oy, pc |-> T[pa][1], ps |-> T[pa][2], pd |-> T[pa][3], qq |-> qq,
                re |-> 4, rm |-> 6, core |-> 25000, d1000 |-> 500, n4 |-> 4 * r.l, R |-> 4000, S |-> IF r.wide THEN Wide ELSE Delta, how |-> r.how, G |-> Weights(1, r.how)])
Dispersed == LET g == Gal(v, 4, v.t) a == TLCEval(ApDisp(g))
             IN /\ Same(a, ApDisp([g EXCEPT !.ox = -v.ox, !.oy = -v.oy]))
                /\ Same(a, ApDisp([g EXCEPT !.ox = -v.ox, !.ps = -g.ps]))
                /\ Same(ApDisp(Gal(v, 1, 1)), ApDisp(Gal(v, 1, v.t)))
                /\ Abs(ApDisp([g EXCEPT !.d1000 = 0]) - 100000) <= 100 /\ Abs(InDisp([g EXCEPT !.d1000 = 0]) - 100000) <= 100
                /\ (v.ox = 0 /\ v.oy = 0) => ApDisp([g EXCEPT !.rm = 8]) < a
Numbers == \A x \in {1 + 37 * v.ox * v.ox + 100 * v.t, 7000 + 999 * v.t, 60000 + v.oy} :
             /\ Root(x) * Root(x) <= x /\ (Root(x) + 1) * (Root(x) + 1) > x
             /\ Abs(Log2(2 * x, x) - 10000) <= 5 /\ Log2(x + 60, x) >= 0
             /\ Abs(Power(x, x + 500, 1, 1) - (One * x) \div (x + 500)) <= 30
             /\ Abs(Power(x * 16, x, 1, 2) - 4 * One) <= 60 /\ Abs(Power(4 * x, x, -3, 2) - One \div 8) <= 10
All == done => Symmetric /\ Laws /\ Dispersed /\ Numbers
=============================================================================

------------------------------- MODULE MCPost -------------------------------
(* An analysis asked for again and again, with options changed in between.    *)
EXTENDS Post
VARIABLES cols, abs, wide, first, n
vars == <<cols, abs, wide, first, n>>
Vals == {-200, -100, 0, 100, 300}
Cols == {<<a, b, c>> : a \in Vals, b \in Vals, c \in Vals}
Init == /\ cols \in {<<u, v>> : u \in {<<-100, 0, 100>>, <<0, 100, 300>>, <<300, -100, 0>>}, v \in Cols}
        /\ abs \in BOOLEAN /\ wide = 2 /\ first = cols /\ n = 0
S == [cols |-> cols, abs |-> abs, disp |-> 2]
Analyse == n < 3 /\ n' = n + 1 /\ cols' = Prepared(S) /\ wide' = 6 /\ UNCHANGED <<abs, first>>
Toggle == n < 3 /\ n' = n + 1 /\ abs' = ~abs /\ UNCHANGED <<cols, wide, first>>
Next == Analyse \/ Toggle
Spec == Init /\ [][Next]_vars
(* histories *)
OthersKept == cols[1] = first[1]
SizesKept == wide \in {2, 6} /\ Len(cols) = 2 /\ Len(cols[2]) = Len(first[2])
OnlySigns == cols[2] \in {first[2], AbsSeq(first[2])}
Settled == LET p == [S EXCEPT !.cols = Prepared(S)] IN Prepared(p) = p.cols
(* statistics *)
X == cols[2]
O == ToSorted(X)
Ordered == /\ Perc(O, P2[1]) <= Perc(O, P1[1]) /\ Perc(O, P1[1]) <= Perc(O, P1[2]) /\ Perc(O, P1[2]) <= Perc(O, P2[2])
           /\ 16 * O[1] <= Perc(O, P2[1]) /\ Perc(O, P2[2]) <= 16 * O[3]
Mirrored == LET m == ToSorted([i \in 1..3 |-> -X[i]]) IN \A k \in 1..2 : Abs(Perc(m, P1[k]) + Perc(O, P1[3 - k])) <= 4 /\ Abs(Perc(m, P2[k]) + Perc(O, P2[3 - k])) <= 4
Moved == LET m == [i \in 1..3 |-> X[i] + 50] h == Width(X, 1)
         IN ~Constant(X) => /\ \A b \in {-800, 0, 533, 1600} : IsPeak(m, h, b + 800) = IsPeak(X, h, b)
                            /\ Abs(Width(m, 1) - h) <= 4
Symmetric == (O[2] - O[1] = O[3] - O[2] /\ ~Constant(X)) => LET h == Width(X, 1) IN IsPeak(X, h, 16 * O[2]) /\ Highest(X, h, 16 * O[2]) /\ ~IsPeak(X, h, 16 * O[2] + h \div 2)
Somewhere == ~Constant(X) => LET h == Width(X, 1) IN \E k \in 0..60 : IsPeak(X, h, 16 * O[1] + ((16 * (O[3] - O[1])) \div 60) * k)
Signs == Opposite(AbsSeq(X), 0, 50) = 0 /\ Opposite(X, 0, 50) + Opposite(X, 0, -50) <= 10000
(* a set of independent parameters has its joint peak where each has its own  *)
Pair == LET x == <<-100, -100, 0, 0, 0, 0, 100, 100>> y == <<-100, 100, -100, 100, 0, 0, -100, 100>>
        IN Corr(x, y) = 0 /\ IsJointPeak(x, y, 0, 0) /\ ~IsJointPeak(x, y, 700, 0)
Places == \A v \in [1..4 -> BOOLEAN] : /\ \A i \in 1..4 : v[i] => FreeNames(<<1, 2, 3, 4>>, v)[Place(v, i)] = i
                                       /\ Len(FreeNames(<<1, 2, 3, 4>>, v)) = Cardinality({i \in 1..4 : v[i]})
ASSUME Pair /\ Places
=============================================================================

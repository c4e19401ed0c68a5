------------------------------- MODULE MCExtent -----------------------------
(* Every choice of rows of a small spectrum; the cases printed are replayed.  *)
EXTENDS Extent, Json
CONSTANTS N, Sizes, Seeings, P
VARIABLES lit, s, fw, done
Init == done = FALSE /\ lit \in SUBSET (0..(N - 1)) /\ s \in Sizes /\ fw \in Seeings
Next == ~done /\ done' = TRUE /\ UNCHANGED <<lit, s, fw>> /\ PrintT(<<"CASE", ToJson([lit |-> SortedSeq(lit), s |-> s, fw |-> fw])>>)
Case(S, e, x) == [n |-> N, p |-> P, fw |-> fw, lit |-> SortedSeq(S), a |-> 1000, w |-> <<10, 20, 10>>, sky |-> <<2>>, m |-> ((N - 1) * P) \div 2, s |-> x, err |-> [i \in 1..N |-> e]]
Full0 == Scatter(Case(0..(N - 1), 20, s))
(* more rows tell more, larger errors less                                      *)
MoreRows == (done /\ Cardinality(lit) >= 4) => Scatter(Case(lit, 20, s)) * 100 >= Full0 * 97
MoreError == (done /\ Cardinality(lit) >= 4) => LET x == Scatter(Case(lit, 20, s)) y == Scatter(Case(lit, 40, s)) IN Abs(y - 2 * x) <= 4 + y \div 30
Enough == done => \A k \in 0..(N - 1) : ~TooFew(SortedSeq(lit), P, fw) => ~TooFew(SortedSeq(lit \union {k}), P, fw)
Quadrature == LET i == Intrinsic(s, fw) q == Disp(fw) IN i <= s /\ (IF s <= q THEN i = 0 ELSE Abs(i * i + q * q - s * s) <= 2 * s)
Best == done => LET v == TLCEval([k \in 1..9 |-> Bell(T(k - 1, P, 4 * P, s)) \div 30]) h == Share(v, P, s) IN
          \A d \in {80, 90, 110, 120} : Share(v, P, (s * d) \div 100) <= h
Sky == Clear(Case(lit, 20, s)) = {1, 3} /\ Amp(Case(lit, 20, s)) = 2000 /\ Abs(RowErr(Case({}, 100, s), 0) - 141) <= 1
=============================================================================

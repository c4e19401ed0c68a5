------------------------------- MODULE MCPlot -------------------------------
(* All sets of masked rows of N rows, all choices of free parameters, all     *)
(* small posteriors.                                                          *)
EXTENDS Plot
CONSTANTS N, V
VARIABLES mask, vary, sample, done
Init == mask \in SUBSET (0..(N - 1)) /\ vary \in [1..5 -> BOOLEAN] /\ sample \in [1..4 -> V] /\ done = FALSE
        /\ (mask = {} \/ vary = [i \in 1..5 |-> TRUE] \/ sample = [i \in 1..4 |-> 0])
        /\ (sample = [i \in 1..4 |-> 0] \/ vary = [i \in 1..5 |-> i = 1])
Next == ~done /\ done' = TRUE /\ UNCHANGED <<mask, vary, sample>>
Boxes == RowBoxes(mask, N, 3)
(* the boxes cover the masked rows and nothing else, without touching          *)
Inside(y, b) == b[3] < 2 * y /\ 2 * y < b[4]
Cover == \A y \in 0..(N - 1) : (y \in mask) = (\E b \in Boxes : Inside(y, b))
Apart == \A a \in Boxes : \A b \in Boxes : (a # b) => (a[4] < b[3] \/ b[4] < a[3])
(* a line is drawn where masked and unmasked rows meet, and only there         *)
Lines == Bounds2(mask, N) = {2 * y + 1 : y \in {x \in 0..(N - 2) : (x \in mask) # ((x + 1) \in mask)}}
Turned == ColBoxes(mask, 3, N) = {<<b[3], b[4], b[1], b[2]>> : b \in Boxes}
Columns == LET n == Names(vary, <<"a", "b", "s", "m", "z">>, FALSE) IN
   /\ Len(n) = Shown(vary) + 2 /\ n[VreCol(vary)] = "VRE" /\ n[SigmaCol(vary)] \in {"s", "sigmaRE"} /\ (vary[3] <=> n[SigmaCol(vary)] = "s")
Order == done => LET s == [i \in 1..4 |-> 1000 * Ordered(sample)[i]] IN
   /\ \A i \in 1..3 : Percentile(s, Cuts[i]) <= Percentile(s, Cuts[i + 1])
   /\ Percentile(s, 0) = s[1] /\ Percentile(s, 100000) = s[4]
   /\ \A i \in 1..4 : Abs(Percentile(s, Cuts[i]) + Percentile(Ordered([j \in 1..4 |-> -s[j]]), 100000 - Cuts[i])) <= 3 * 3
Far == done => \A p \in {<<1, 1>>, <<4, 5>>, <<0, 1>>, <<-3, 5>>} : LET r == Reach(6000, 7000, p[1], p[2], 1800) IN r >= 0 /\ r <= Reach(6000, 7000, 1, 1, 1800) /\ r <= Reach(6000, 9000, p[1], p[2], 1800)
All == Cover /\ Apart /\ Lines /\ Turned /\ Columns /\ Order /\ Far
=============================================================================

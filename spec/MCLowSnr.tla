------------------------------ MODULE MCLowSnr ------------------------------
(* Every high/low pattern of up to NR rows.                                   *)
EXTENDS LowSnr, TLC, Json
CONSTANTS NR, Emit
VARIABLES nr, H, done
Init == nr \in 1..NR /\ H \in SUBSET (1..nr) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<nr, H>>
Spec == Init /\ [][Next]_<<nr, H, done>>
D == Dropped(nr, H)
\* every row below the cut is dropped; what is kept reaches the cut
AllLowDropped == ((1..nr) \ H) \subseteq D
\* if everything reaches the cut nothing is dropped, if nothing does all is
Extremes == (H = 1..nr => D = {}) /\ (H = {} => D = 1..nr)
\* an isolated group of one or two rows never survives next to another group
NoSlivers == Cardinality(Runs(H)) > 1 => \A r \in Runs((1..nr) \ D) : r[2] - r[1] >= 2
\* an end block is never kept if the closest dropped row is in its half
EndRule == LET K == (1..nr) \ D IN
   /\ (K # {} /\ D # {} /\ 1 \in K) => 2 * (SetMin(D) - 1) >= nr
   /\ (K # {} /\ D # {} /\ nr \in K) => 2 * (SetMax(D) - 1) <= nr
\* mirror symmetry (up to the convention for the exact middle)
Mirror(S) == {nr + 1 - r : r \in S}
Symmetric == nr % 2 = 1 => LET D2 == Dropped(nr, Mirror(H)) IN
   ((D = {} <=> D2 = {}) /\ (D = 1..nr <=> D2 = 1..nr))
EmitCase == (Emit /\ done) => PrintT(<<"CASE", ToJson([nr |-> nr, H |-> SortedSeq(H)])>>)
=============================================================================

------------------------------ MODULE MCWeights ------------------------------
(* The exact weights satisfy the laws used for the verdicts, and no other     *)
(* assignment on a coarse lattice does (the laws determine the weights).      *)
EXTENDS Weights, TLC
CONSTANTS N, U
VARIABLES s, q, D, W
Init == /\ s \in [1..N -> {2, 4}] /\ q \in [1..N -> {1, 2}]
        /\ D \in SUBSET (1..N) /\ W \in [1..N -> {0, U \div 6, U \div 3, U \div 2, (2 * U) \div 3, U}]
Next == UNCHANGED <<s, q, D, W>>
Spec == Init /\ [][Next]_<<s, q, D, W>>
ok == NonNegative(W) /\ Normalised(W, U, D) /\ DroppedZero(W, D) /\ EdgeLaw(W, s, q, D)
\* any accepted assignment is within rounding of the exact one
Exact(i) == LET w(j) == IF j \in D THEN 0 ELSE (4 * q[j]) \div s[j]
                tot == SumSeq([j \in 1..N |-> w(j)])
            IN IF tot = 0 THEN 0 ELSE (w(i) * U) \div tot
Determined == ok => \A i \in 1..N : Abs(W[i] - Exact(i)) <= 10 * N
LowGivesZero == (D = 1..N /\ ok) => \A i \in 1..N : W[i] = 0
=============================================================================

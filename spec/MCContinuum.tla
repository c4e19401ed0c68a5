----------------------------- MODULE MCContinuum -----------------------------
(* The specified fit recovers every line exactly, for every pattern of errors, *)
(* masked channels and values in the line window, and does not see either.     *)
EXTENDS Continuum
CONSTANT N
VARIABLES y, e, use, a, b, done
vars == <<y, e, use, a, b, done>>
Line == {4}
Init == /\ a \in {-3, 0, 2} /\ b \in {0, 5} /\ e \in [1..N -> {1, 2}]
        /\ use \in SUBSET ((1..N) \ Line) /\ Cardinality(use) >= 2
        /\ y = [i \in 1..N |-> a * (i - 4) + b] /\ done = FALSE
Spoil == /\ ~done /\ done' = TRUE /\ y' = [i \in 1..N |-> IF i \in use THEN y[i] ELSE 17]
         /\ UNCHANGED <<e, use, a, b>>
Spec == Init /\ [][Spoil]_vars
Exact == SlopeNum(use, y, e, 4) = a * SlopeDen(use, y, e, 4) /\ SlopeDen(use, y, e, 4) > 0
Level == Intercept(use, y, e, 4, 1000 * a) = 1000 * b
\* only the ratio of errors matters, reference channel is immaterial
Shift == SlopeNum(use, y, e, 2) * SlopeDen(use, y, e, 4) = SlopeNum(use, y, e, 4) * SlopeDen(use, y, e, 2)
=============================================================================

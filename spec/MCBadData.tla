----------------------------- MODULE MCBadData -----------------------------
(* All orders of the mask preparation steps on every small 1D spectrum.      *)
EXTENDS BadData, TLC
CONSTANTS NW, MaxSteps
VARIABLES flux, err, w, mask, mask0, steps
vars == <<flux, err, w, mask, mask0, steps>>
Vals == {5, 0, NaN, PInf}
Init == /\ flux \in [1..NW -> {5, NaN}]
        /\ err \in [1..NW -> Vals]
        /\ w \in [1..NW -> {0, 1}]
        /\ mask \in [1..NW -> {0, 1}]
        /\ mask0 = mask
        /\ steps = 0
Step(m) == mask' = m /\ steps' = steps + 1 /\ UNCHANGED <<flux, err, w, mask0>>
Next == /\ steps < MaxSteps
        /\ \/ Step(Missing(flux, err, w, mask, TRUE))
           \/ Step(Missing(flux, err, w, mask, FALSE))
           \/ \E n \in 0..2 : Step(Edges(mask, n))
Spec == Init /\ [][Next]_vars
Monotone == Below(mask, mask0)
Idempotent == /\ LET m == Missing(flux, err, w, mask, TRUE) IN Missing(flux, err, w, m, TRUE) = m
Complete == LET m == Missing(flux, err, w, mask, TRUE) IN
            \A i \in 1..NW : m[i] = 1 => Finite(flux[i]) /\ Finite(err[i]) /\ w[i] # 0
OnlyBad == LET m == Missing(flux, err, w, mask, TRUE) IN
            \A i \in 1..NW : m[i] # mask[i] => ~Finite(flux[i]) \/ ~Finite(err[i]) \/ w[i] = 0 \/ err[i] = 0
EdgeCount == \A n \in 0..2 :
   LET ok == {i \in 1..NW : mask[i] = 1} e == Edges(mask, n)
       gone == {i \in 1..NW : mask[i] = 1 /\ e[i] = 0} IN
   /\ Cardinality(gone) <= 2*n
   /\ (ok # {} /\ SetMin(ok) = 1 /\ SetMax(ok) = NW) => gone = {}
FillSafe == \A z, a \in BOOLEAN : LET f == Fill(flux, mask, -99, z, a) IN
            \A i \in 1..NW : mask[i] = 1 => f[i] = flux[i]
FillClean == LET f == Fill(flux, Missing(flux, err, w, mask, TRUE), -99, FALSE, FALSE) IN
            \A i \in 1..NW : Finite(f[i])
=============================================================================

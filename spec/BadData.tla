------------------------------ MODULE BadData ------------------------------
(* Masking and filling of unusable samples.  Values are integers; the three  *)
(* non-finite values are represented by the sentinels below.                 *)
EXTENDS Common

NaN == 999999
PInf == 999998
NInf == -999998
Finite(x) == x \notin {NaN, PInf, NInf}
NonZero(x) == x # 0 /\ x # NaN          \* "|x| > 0" holds

(* 0/1 mask of one sample sequence.  w = <<>> when no weights were supplied  *)
Missing(flux, err, w, mask, zeroerr) ==
  [i \in 1..Len(flux) |->
     IF \/ ~Finite(flux[i]) \/ ~Finite(err[i])
        \/ (w # <<>> /\ w[i] = 0)
        \/ (zeroerr /\ err[i] = 0 /\ \E j \in 1..Len(err) : NonZero(err[j]))
     THEN 0 ELSE mask[i]]

(* the num samples inward of the outermost valid ones, on sides with missing data *)
Edges(mask, num) ==
  LET ok == {i \in 1..Len(mask) : mask[i] = 1} IN
  IF ok = {} THEN mask
  ELSE LET a == SetMin(ok)  b == SetMax(ok) IN
       [i \in 1..Len(mask) |->
          IF \/ (a > 1 /\ i >= a /\ i < a + num)
             \/ (b < Len(mask) /\ i <= b /\ i > b - num)
          THEN 0 ELSE mask[i]]

(* masked channels of the 1D spectrum are masked in every row                *)
FromOneD(mask2, mask1) ==
  [r \in 1..Len(mask2) |-> [i \in 1..Len(mask1) |-> IF mask1[i] = 0 THEN 0 ELSE mask2[r][i]]]

Fill(x, mask, fill, zero, all) ==
  [i \in 1..Len(x) |->
     IF mask[i] = 0 /\ (all \/ ~Finite(x[i]) \/ (zero /\ x[i] = 0)) THEN fill ELSE x[i]]

Below(m1, m2) == \A i \in 1..Len(m1) : m1[i] <= m2[i]
=============================================================================

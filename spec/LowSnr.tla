------------------------------- MODULE LowSnr -------------------------------
(* Which rows of a 2D spectrum are dropped for low signal-to-noise.          *)
EXTENDS Common

\* |S|/sqrt(E) >= n/d ; a row without any error is high iff it has signal
HighRow(S, E, n, d) == IF E = 0 THEN S # 0 ELSE S * S * d * d >= n * n * E

\* rows 1..nr ; H0 = rows reaching the cut
Kept(H0) == LET rs == Runs(H0) IN
  IF Cardinality(rs) > 1
  THEN UNION {r[1]..r[2] : r \in {x \in rs : x[2] - x[1] >= 2}}
  ELSE H0

\* dropped rows.  Row numbers are 1-based: the first row is index 0 in arrays
Dropped(nr, H0) ==
  LET H == Kept(H0)
      L == (1..nr) \ H
  IN IF L = {} \/ H = {} THEN L
     ELSE LET lo == SetMin(L)  hi == SetMax(L)
              below == IF 2 * (lo - 1) < nr /\ SetMin(H) < lo THEN 1..(lo-1) ELSE {}
              above == IF 2 * (hi - 1) > nr /\ SetMax(H) > hi THEN (hi+1)..nr ELSE {}
          IN L \cup below \cup above

RowMask(mask, drop) == [r \in 1..Len(mask) |-> IF r \in drop THEN [c \in 1..Len(mask[r]) |-> 0] ELSE mask[r]]
RECURSIVE RowSum(_, _)
RowSum(x, m) == IF x = <<>> THEN 0 ELSE Head(x) * Head(m) + RowSum(Tail(x), Tail(m))
RECURSIVE RowSq(_, _)
RowSq(x, m) == IF x = <<>> THEN 0 ELSE Head(x) * Head(x) * Head(m) + RowSq(Tail(x), Tail(m))
HighRows(flux, err, m, n, d) ==
  {r \in 1..Len(flux) : HighRow(RowSum(flux[r], m[r]), RowSq(err[r], m[r]), n, d)}
=============================================================================

------------------------------ MODULE SkyLines ------------------------------
(* Sky-line channel identification.  Errors, masks and the median level are  *)
(* integers; the threshold is the rational cn/cd times the median mn/md.     *)
EXTENDS Common, Tables

RECURSIVE SumSq(_, _, _)
SumSq(err, mask, c) ==      \* quadrature sum over rows of the valid errors in channel c
  IF err = <<>> THEN 0
  ELSE (IF mask[1][c] # 0 THEN err[1][c] * err[1][c] ELSE 0) + SumSq(Tail(err), Tail(mask), c)

\* sqrt(S) >= (cn*mn)/(cd*md)  for non-negative quantities
Reaches(S, t) == S * t.d * t.d >= t.n * t.n
Thresh(cut, med) == [n |-> cut[1] * med[1], d |-> cut[2] * med[2]]

Sky(err, mask, t) == {c \in 1..Len(err[1]) : Reaches(SumSq(err, mask, c), t)}
SkyMask(mask, sky) == [r \in 1..Len(mask) |-> [c \in 1..Len(mask[r]) |-> IF c \in sky THEN 0 ELSE mask[r][c]]]
Clear(n, sky) == (1..n) \ sky
=============================================================================

------------------------------- MODULE Spatial -------------------------------
(* Spatial trimming: bookkeeping of rows, positions and bounds.               *)
(* Positions are in units of 1/1000 row; rows are 0-based array indices.      *)
EXTENDS LowSnr

Round(x) == FloorDiv(2 * x + 1000, 2000)            \* nearest row of a position
CeilDiv(a, b) == (a + b - 1) \div b
\* position used: the fitted one, unless more than two rows from the nominal one
Centre(mu, ypos) == IF Abs(ypos - 1000 * Round(mu)) > 2000 THEN Round(ypos) ELSE Round(mu)
TooFar(mu, ypos) == Abs(ypos - 1000 * Round(mu)) > 2000
\* half-way to the negative images at mu -+ sep
Cut(mu, sep) == LET m0 == Round(mu)  a == Abs(m0 - Round(mu - sep))  b == Abs(m0 - Round(mu + sep))
                IN CeilDiv(a + b, 4)
Left(m0, cut) == Max2(0, m0 - cut)
Right(n, m0, cut) == Min2(n - 1, m0 + cut)
\* the block kept: rows l .. r-1
Rows(l, r) == [i \in 1..(r - l) |-> l + i - 1]
\* sliver rule of the fit: windows narrower than 5 rows or wider than 4 arcsec are refitted
Plain(cut, pix) == 2 * cut * pix <= 4000 /\ 2 * cut >= 5
=============================================================================

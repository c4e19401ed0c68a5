-------------------------------- MODULE Fit1D --------------------------------
(* Fitting one-dimensional spectra: which minimisations are run, from where,  *)
(* on what data; what is reported; its errors; correction for the instrument. *)
(* A point is <<z, width, fluxes..., continuum...>> in integer units.         *)
EXTENDS Line1D, TLC
BD == INSTANCE BadData
TR == INSTANCE Trim
NoBound == 1000000000
(* lines at redshift k/64 + j/6400                                            *)
At(r, k, j) == (r * (64 + k)) \div 64 + FloorDiv(r * j, 6400)
LinesAt(g, k, j, q) == [i \in 1..Len(Groups[g]) |-> LET c == At(RestWave[Groups[g][i]], k, j)
                                                    IN [at |-> c, wide |-> c \div q, ratio |-> Ratio[Groups[g][i]]]]
SetsAtZ(names, k, j, q) == [i \in 1..Len(names) |-> LinesAt(names[i], k, j, q)]
(* the part of the spectrum that is fitted                                    *)
Used(c) == TR!TrimCols(c.wave, [i \in 1..Len(c.wave) |-> i], 1, [obs |-> <<>>, rest |-> c.range, line |-> c.names[1], n |-> 64 + c.zk, d |-> 64])
FitMask(c) == BD!Edges(Pick(c.mask, Used(c)), c.edge)
(* positions of a point                                                       *)
Size(c) == 2 + Len(c.names) + c.order + 1
IsFlux(c, i) == i \in 3..(2 + Len(c.names))
(* what came out negative and is kept from doing so in a second search        *)
Negative(r) == (IF r[2] < 0 THEN {2} ELSE {}) \cup (IF r[3] < 0 THEN {3} ELSE {})
Again(r) == Negative(r) # {}
Bounded(c, neg, i) == (i = 2 /\ 2 \in neg) \/ (IsFlux(c, i) /\ 3 \in neg)
ZRoom(c) == (c.del * 10000) \div (RestWave[Groups[c.names[1]][1]] \div 100)
Lower(c, neg, i) == IF i = 1 THEN c.zk * 15625 - ZRoom(c) ELSE IF Bounded(c, neg, i) THEN 0 ELSE -NoBound
Upper(c, i) == IF i = 1 THEN c.zk * 15625 + ZRoom(c) ELSE NoBound
Within(x, lo, hi) == Max2(lo, Min2(hi, x))
From(c, p, neg) == [i \in 1..Size(c) |-> Within(p[i], Lower(c, neg, i), Upper(c, i))]
Searches(r) == IF Again(r) THEN 2 ELSE 1
(* errors: distance to the percentiles, in sixteenths                         *)
ToSorted(x) == SortSeq(x, <)
Perc(s, p) == LET t == p * (Len(s) - 1)  k == t \div 100000  f == (t % 100000) \div 10
                  a == s[k + 1]  b == IF k + 2 <= Len(s) THEN s[k + 2] ELSE a
              IN 16 * a + (16 * (b - a) * f) \div 10000
Errors(v, col) == LET s == ToSorted(col) IN <<16 * v - Perc(s, 15865), Perc(s, 84135) - 16 * v>>
Column(rows, i) == [n \in 1..Len(rows) |-> rows[n][i]]
(* removal of the instrumental width in quadrature                            *)
Corrected(v, R) == IF Abs(v) > Abs(R) THEN Root(v * v - R * R) ELSE 0
CorrErrors(v, col, R) == Errors(Corrected(v, R), [n \in 1..Len(col) |-> Corrected(col[n], R)])
=============================================================================

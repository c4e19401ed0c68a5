------------------------------- MODULE Params -------------------------------
(* Parameter vectors of a kinematic model.                                   *)
(*                                                                           *)
(* A model holds the full vector th, the flags vary, the number of rotation  *)
(* and dispersion parameters nv, nd (the last two entries are the spatial     *)
(* offset and the redshift), whether the pixel model exists (made), the       *)
(* vector the pixel model was last evaluated at (at) and the vector of the    *)
(* stored best fit (best, <<>> if none).                                      *)
EXTENDS Common
FreeIx(vary) == SortedSeq({i \in DOMAIN vary : vary[i]})
NFree(vary) == Cardinality({i \in DOMAIN vary : vary[i]})
Rank(vary, i) == Cardinality({j \in 1..i : vary[j]})
(* the full vector after the free parameters take the values tf              *)
Fill(th, vary, tf) == [i \in DOMAIN th |-> IF vary[i] THEN tf[Rank(vary, i)] ELSE th[i]]
ReadFree(th, vary) == Pick(th, FreeIx(vary))
VelPart(th, nv) == SubSeq(th, 1, nv)
DispPart(th, nv, nd) == SubSeq(th, nv + 1, nv + nd)
Offset(th) == th[Len(th) - 1]
Redshift(th) == th[Len(th)]
FixedKept(a, b, vary) == \A i \in DOMAIN a : ~vary[i] => a[i] = b[i]

New(th, vary, nv, nd) == [th |-> th, vary |-> vary, nv |-> nv, nd |-> nd, made |-> FALSE, at |-> <<>>, best |-> <<>>]
LegalTf(m, tf) == Len(tf) = NFree(m.vary)
(* transitions                                                                *)
Update(m, tf) == [m EXCEPT !.th = Fill(m.th, m.vary, tf)]
Evaluate(m, tf) == LET t == Fill(m.th, m.vary, tf) IN [m EXCEPT !.th = t, !.made = TRUE, !.at = t]
Refree(m, v) == [m EXCEPT !.vary = v]
Replace(m, t) == [m EXCEPT !.th = t]
SetBest(m, tf) == LET x == Evaluate(m, tf) IN [x EXCEPT !.best = x.th]
=============================================================================

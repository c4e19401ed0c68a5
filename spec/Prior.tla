------------------------------- MODULE Prior --------------------------------
(* Flat priors, the posterior, and the starting positions of the walkers.     *)
(* Values are integers; Nan, PInf, NInf are sentinels outside their range.    *)
EXTENDS Params
Nan == 999999
PInf == 999998
NInf == -999998
(* bounds: sequence of <<lo, hi>> (whatever it holds for fixed parameters)     *)
Inside(b, x) == x # Nan /\ b[1] <= x /\ x <= b[2]
InPrior(tf, vary, bounds) ==
  LET ix == FreeIx(vary) IN \A j \in 1..Len(ix) : Inside(bounds[ix[j]], tf[j])
LogPrior(tf, vary, bounds) == IF InPrior(tf, vary, bounds) THEN 0 ELSE NInf
(* the posterior from the likelihood of the model there; undef: not a number  *)
Posterior(tf, vary, bounds, like, undef) ==
  IF ~InPrior(tf, vary, bounds) \/ undef THEN NInf ELSE like
(* one coordinate per free parameter, between that parameter's own bounds     *)
StartOK(lo, hi, vary, bounds) ==
  LET ix == FreeIx(vary) IN
  /\ Len(lo) = Len(ix) /\ Len(hi) = Len(ix)
  /\ \A j \in 1..Len(ix) : bounds[ix[j]][1] <= lo[j] /\ hi[j] <= bounds[ix[j]][2]
=============================================================================

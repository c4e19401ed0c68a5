---------------------------- MODULE PrepTrace ----------------------------
(* Life of a spectrum: "prep" (first preparation, with the whole raw image),  *)
(* "again" (preparing again, possibly after attributes were changed or        *)
(* through another galaxy), "twin" (a copy taken before preparing, prepared   *)
(* on its own), "generic" (preparation with continuum subtraction).           *)
EXTENDS Prep, TraceKit
ANG == INSTANCE Angles WITH U <- 1000
Unset == 999999
TInit == [digest |-> ""]
TStep(s, e) == IF e.k \in {"prep", "generic"} /\ e.raised = "" THEN [digest |-> e.digest] ELSE s
Shape(x, n, w) == Len(x) = n /\ \A i \in 1..n : Len(x[i]) = w
AngleOK(e) == IF e.delt0 # Unset THEN e.delt = e.delt0
              ELSE IF e.model THEN TRUE
              ELSE ANG!Accept(e.delt, e.gal, e.slit, e.img, 2)
Common_(e) == Failing([
      held     |-> e.holds,
      flagged  |-> e.flag,
      angle    |-> AngleOK(e),
      shapes   |-> Len(e.shapes) = 0,
      lines    |-> e.lines = e.lines0,
      cutoff   |-> e.cutoff0 = 0 \/ e.cutoff = e.cutoff0,
      lam0     |-> e.lam0given = 0 \/ e.lam0init = e.lam0given,
      ranges   |-> e.ranges = e.ranges0,
      weights  |-> e.weq,
      dlam     |-> e.dlamok,
      positions |-> e.posok ])
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"} ELSE
  CASE e.k = "prep" ->
       LET l == IF e.dither THEN e.l ELSE 0
           r == IF e.dither THEN e.r ELSE Len(e.q.flux) - 1
       IN IF l < 0 \/ r >= Len(e.q.flux) \/ r <= l THEN {"rows outside the image"} ELSE
       LET f == Final(e.q, Stage2(e.q), l, r) IN
       Common_(e) \cup Failing([
         rows   |-> e.l = l /\ e.r = r,
         wave   |-> e.out.wave = f.wave,
         flux   |-> e.out.flux = f.flux,
         err    |-> e.out.err = f.err,
         qual   |-> e.out.qual = f.qual,
         skymask |-> e.out.msky = f.msky,
         lowmask |-> e.out.low = f.low,
         mask   |-> e.out.mask = f.mask,
         weight |-> e.out.weight = f.weight,
         dropped |-> Range(e.out.dropped) = {d - 1 : d \in f.dropped},
         skychan |-> Range(e.out.sky) = f.sky /\ e.out.skyfit = 0,
         nocont |-> e.contzero /\ e.incl ])
    [] e.k = "generic" -> Common_(e) \cup Failing([
         bad |-> e.badvalid = 0, droppedvalid |-> e.dropvalid = 0, inline |-> e.inrange, oned |-> e.onedok ])
    [] e.k = "again" -> Failing([ unchanged |-> e.digest = s.digest, held |-> e.holds, flagged |-> e.flag,
                                  angle |-> e.delt = e.delt0 ])
    [] e.k = "twin" -> Failing([ same |-> e.digest = s.digest ])
    [] OTHER -> {"unknown event"}
=============================================================================

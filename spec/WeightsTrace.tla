---------------------------- MODULE WeightsTrace ----------------------------
EXTENDS Weights, TraceKit
TInit == <<>>
TStep(s, e) == s
TFails(st0, e) ==
  IF e.raised # "" THEN {"weights raised"} ELSE
  LET D == Range(e.dropped)
      D0 == IF e.type = "none" THEN {} ELSE D
  IN Failing([
      defined   |-> e.defined,
      sum       |-> Normalised(e.w, e.u, D0),
      dropped   |-> e.type = "none" \/ DroppedZero(e.w, D),
      sign      |-> NonNegative(e.w),
      matrix    |-> e.matrix,
      law       |-> CASE e.type = "up-edges" -> EdgeLaw(e.w, e.s, e.q, D)
                      [] e.type = "optimal" -> D = 1..Len(e.w) \/ ProfileLaw(e.w, e.u, e.g, D)
                      [] e.type = "none" -> EqualLaw(e.w, e.u)
                      [] OTHER -> FALSE,
      untouched |-> e.untouched ])
=============================================================================

------------------------------ MODULE MockTrace -----------------------------
(* "ask": a request (number id) is set up.  "slit", "cube": what request id   *)
(* gives, in light of polynomial galaxies.  "pair": a mock and the model made *)
(* directly for the detector; "through": a cube and a slit, real galaxies.    *)
EXTENDS Mock, Tables, TraceKit
TInit == <<>>
TStep(s, e) == IF e.k = "ask" THEN Append(s, e.r) ELSE s
Close(got, want) == Abs(got - want) <= 3 + Abs(want) \div 30000
Detector(r, e) == [ raised |-> e.raised = "", rows |-> e.rows = Rows(r), centre |-> e.m4 = Centre4(r), inputs |-> e.same ]
AskFails(e) == Failing(Detector(e.r, e))
SlitFails(r, e) == LET w == TLCEval(SlitObs(r)) IN Failing([ raised |-> e.raised = "", inputs |-> e.same, flux |-> Len(e.img) = Rows(r) /\ \A j \in 1..Len(w) : Close(e.img[j], w[j]) ])
CubeFails(r, e) == LET w == TLCEval(CubeObs(r)) n == Rows(r) IN
   Failing([ raised |-> e.raised = "", inputs |-> e.same,
             flux |-> Len(e.img) = n /\ \A j \in 1..n : Len(e.img[j]) = n /\ \A i \in 1..n : Close(e.img[j][i], w[j][i]) ])
PairFails(e) == Failing([ raised |-> e.raised = "", inputs |-> e.same, rows |-> e.rows = Rows(e.r), centre |-> e.m4 = Centre4(e.r),
                          shape |-> Len(e.mock) = Len(e.model) /\ Len(e.mock) = Rows(e.r) * e.nw,
                          light |-> \E i \in 1..Len(e.model) : e.model[i] > 500000,
                          model |-> \A i \in 1..Len(e.model) : Abs(e.mock[i] - e.model[i]) <= 2 ])
(* seeing conserves the light of each, its losses at the edges: one factor    *)
ThroughFails(e) ==
  LET n == Rows(e.r)
      got == TLCEval([j \in 1..Len(e.slit) |-> [w \in 1..Len(e.slit[j]) |-> Through([i \in 1..n |-> e.cube[j][w][i]], e.n)]])
      sum(x) == SumSeq([j \in 1..n |-> SumSeq([w \in 1..Len(x[j]) |-> x[j][w] \div 4])])
      u == sum(got) \div 50000 + 1
      F == IF e.seen /\ sum(got) > 20000 THEN (20000 * (sum(e.slit) \div u)) \div (sum(got) \div u) ELSE 20000
      times(x) == F * (x \div 20000) + (F * (x % 20000)) \div 20000
  IN IF e.raised # "" THEN {"raised " \o e.raised}
     ELSE IF Len(e.slit) # n \/ Len(e.cube) # n THEN {"shape"}
     ELSE Failing([ light |-> sum(got) > 20000, factor |-> F \in 14000..26000,
                    flux |-> \A j \in 1..n : \A w \in 1..Len(e.slit[j]) : Abs(times(got[j][w]) - e.slit[j][w]) <= 30 + Abs(got[j][w]) \div (IF e.seen THEN 5000 ELSE 20000) ])
TFails(s, e) == CASE e.k = "ask" -> AskFails(e)
                  [] e.k = "slit" -> SlitFails(s[e.id], e)
                  [] e.k = "cube" -> CubeFails(s[e.id], e)
                  [] e.k = "pair" -> PairFails(e)
                  [] e.k = "through" -> ThroughFails(e)
                  [] OTHER -> {"unknown"}
=============================================================================

----------------------------- MODULE PriorTrace -----------------------------
(* "prior": one value of the log prior; "start": starting positions (floors   *)
(* lo and ceilings hi of every walker); "point": likelihood of a freshly      *)
(* built model at a point; "eval": the posterior reported by a fit object     *)
(* with a history, of the point numbered p.  Posterior values in 1/1000.      *)
EXTENDS Prior, TraceKit
TInit == [vary |-> <<>>, bounds |-> <<>>, like |-> <<>>, und |-> <<>>, tf |-> <<>>]
TStep(s, e) == CASE e.k = "setup" -> [s EXCEPT !.vary = e.vary, !.bounds = e.bounds]
                 [] e.k = "point" -> [s EXCEPT !.like = Append(@, e.like), !.und = Append(@, e.undef), !.tf = Append(@, e.tf)]
                 [] OTHER -> s
Close(a, b) == a = b \/ (a # NInf /\ b # NInf /\ Abs(a - b) <= 3)
TFails(s, e) ==
  CASE e.k = "prior" ->
         IF e.raised # "" THEN {"prior raised"}
         ELSE Failing([ prior |-> e.out = LogPrior(e.tf, e.vary, e.bounds), inputkept |-> e.kept ])
    [] e.k = "start" ->
         IF e.raised # "" THEN {"start raised"}
         ELSE Failing([ count  |-> Len(e.lo) = e.n,
                        inside |-> \A w \in 1..Len(e.lo) : StartOK(e.lo[w], e.hi[w], e.vary, e.bounds),
                        prior  |-> \A w \in 1..Len(e.prior) : e.prior[w] = 0,
                        spread |-> e.spread ])
    [] e.k = "eval" ->
         IF e.raised # "" THEN {"posterior raised"}
         ELSE Failing([ posterior |-> Close(e.out, Posterior(s.tf[e.p], s.vary, s.bounds, s.like[e.p], s.und[e.p])),
                        inputkept |-> e.kept ])
    [] e.k \in {"setup", "point"} -> IF e.raised # "" THEN {e.k \o " raised"} ELSE {}
    [] OTHER -> {"unknown event"}
=============================================================================

------------------------------ MODULE McmcTrace ------------------------------
(* "start": a run with its settings; "step": a stored ensemble (id) of group g *)
(* with what the sampler then reported; "end": how it finished (crashed or not),*)
(* the messages, and what the file, the returned and the saved results hold;   *)
(* "twin": the same run repeated with the same seed.                           *)
EXTENDS Mcmc, TraceKit
Floor == 49
TInit == Idle
Conf(e) == [nBurn |-> e.nBurn, nSteps |-> e.nSteps, minAF |-> e.minAF, maxAF |-> e.maxAF, nEff |-> e.nEff, all |-> e.all, over |-> e.over, file |-> e.file]
TStep(s, e) ==
  CASE e.k = "start" -> Begin(s, Conf(e))
    [] e.k = "step" -> IF e.g = "burn" THEN Burn(s, e.id) ELSE Sample(s, e.id, [af |-> e.af, acor |-> e.acor], Floor)
    [] e.k = "end" -> [Close(s) EXCEPT !.file = IF s.c.file THEN [burn |-> e.burn, prod |-> e.prod] ELSE s.file]
    [] OTHER -> s
StepFails(s, e) == Failing([ order |-> IF e.g = "burn" THEN CanBurn(s) ELSE CanSample(s),
                             continuity |-> e.cont, probability |-> e.prob, inside |-> e.inside, walkers |-> e.walkers, scale |-> e.scale ])
EndFails(s, e) ==
  IF e.crash THEN Failing([ failed |-> e.raised # "", stored |-> s.c.file => (e.burn = s.burn /\ e.prod = s.prod) ])
  ELSE IF e.raised # "" THEN {"raised " \o e.raised}
  ELSE Failing([ complete |-> Done(s),
                 stored |-> s.c.file => (e.burn = s.burn /\ e.prod = s.prod),
                 result |-> e.chain = s.prod /\ e.whole,
                 saved |-> e.saved,
                 counted |-> e.fin = s.np /\ e.early = Early(s) /\ e.forced = Forced(s, Floor),
                 caution |-> e.caution = Caution(s) ])
TFails(s, e) == CASE e.k = "step" -> StepFails(s, e) [] e.k = "end" -> EndFails(s, e) [] e.k = "twin" -> Failing([ reproducible |-> e.same ]) [] OTHER -> {}
=============================================================================

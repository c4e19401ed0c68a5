-------------------------------- MODULE Mcmc --------------------------------
(* The sampling protocol: a run does its burn-in steps, then production steps *)
(* until it converges past the enforced minimum or uses up its steps; a crash *)
(* may end it anywhere.  Stored chains survive between runs.                   *)
EXTENDS Common
(* c: [nBurn, nSteps, minAF, maxAF, nEff (-1 = not set), all, over, file]      *)
(* step results r: [af, acor]: acceptance in the units of the bounds;          *)
(* acor: largest autocorrelation time in quarters, -1 not available, -2 undefined *)
Bounded(c) == c.minAF >= 0 /\ c.maxAF >= 0 /\ c.nEff >= 0
Converged(c, i, r) ==                              \* after production step i, counted from 0
  /\ Bounded(c) /\ ~c.all /\ r.acor >= 0
  /\ c.minAF < r.af /\ r.af < c.maxAF
  /\ 4 * i > r.acor * c.nEff
Stops(c, i, r, floor) == Converged(c, i, r) /\ i >= floor
Empty == [burn |-> <<>>, prod |-> <<>>]
(* m: [phase, c, file (kept chains), burn, prod (visible chains), nb, np, over] *)
Idle == [phase |-> "idle", c |-> [over |-> TRUE], file |-> Empty, burn |-> <<>>, prod |-> <<>>, nb |-> 0, np |-> 0, conv |-> FALSE]
Begin(m, c) == LET f == IF c.file THEN m.file ELSE Empty
               IN [m EXCEPT !.phase = "run", !.c = c, !.nb = 0, !.np = 0, !.conv = FALSE,
                            !.burn = IF c.over THEN <<>> ELSE f.burn,
                            !.prod = IF c.over /\ c.nBurn = 0 THEN <<>> ELSE f.prod]
(* overwriting drops the old production chain when the new one starts          *)
BurnDone(m) == m.nb = m.c.nBurn
Done(m) == BurnDone(m) /\ (m.conv \/ m.np = m.c.nSteps)
CanBurn(m) == m.phase = "run" /\ m.nb < m.c.nBurn
CanSample(m) == m.phase = "run" /\ BurnDone(m) /\ ~Done(m)
Burn(m, x) == LET n == [m EXCEPT !.nb = m.nb + 1, !.burn = Append(m.burn, x)]
              IN IF n.nb = m.c.nBurn /\ m.c.over THEN [n EXCEPT !.prod = <<>>] ELSE n
Sample(m, x, r, floor) == [m EXCEPT !.np = m.np + 1, !.prod = Append(m.prod, x), !.conv = Stops(m.c, m.np, r, floor)]
Close(m) == [m EXCEPT !.phase = "idle", !.file = IF m.c.file THEN [burn |-> m.burn, prod |-> m.prod] ELSE m.file]
(* what is reported at the end                                                 *)
Forced(m, floor) == IF m.conv /\ m.np = floor + 1 THEN m.np ELSE -1
Early(m) == IF m.conv THEN m.np ELSE -1
Caution(m) == ~m.conv /\ m.np = m.c.nSteps /\ Bounded(m.c) /\ ~m.c.all
=============================================================================

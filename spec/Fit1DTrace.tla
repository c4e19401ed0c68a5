----------------------------- MODULE Fit1DTrace -----------------------------
(* "setup": a fit; "fit", "corr": what it did, with scripted minimisations;    *)
(* "recover": real minimisations of noiseless data; "scatter": of noisy data.  *)
EXTENDS Fit1D, TraceKit
TInit == [c |-> <<>>, guess |-> <<>>, errs |-> <<>>, files |-> <<<<>>, <<>>>>]
\* the guess at the first search: the redshift that of the galaxy, a flat zero continuum
Guess(s) == s.guess
Found(e) == e.results[Searches(e.results[1])]
Writes(s, e) == e.calls # <<>> /\ ~e.noerr /\ ~e.reload /\ e.plot # "missing"
Rows(s, e) == IF e.reload THEN s.files[e.file] ELSE SubSeq(e.results, Searches(e.results[1]) + 1, Len(e.results))
(* the outcome                                                                *)
Raised(s, e) == IF s.c.res < 0 THEN "ValueError"
                ELSE IF e.plot = "missing" THEN "ValueError"
                ELSE IF e.noerr THEN ""
                ELSE IF e.file = 0 THEN "ValueError"
                ELSE IF e.reload /\ s.files[e.file] = <<>> THEN "FileNotFoundError" ELSE ""
TStep(s, e) ==
  CASE e.k = "setup" -> [s EXCEPT !.c = e, !.guess = e.guess]
    [] e.k = "fit" -> IF s.c.res < 0 \/ e.results = <<>> THEN s
                      ELSE [s EXCEPT !.guess = Found(e), !.errs = IF e.raised = "" THEN e.errs ELSE @,
                                     !.files = IF Writes(s, e) /\ e.file > 0 THEN [@ EXCEPT ![e.file] = Rows(s, e)] ELSE @]
    [] OTHER -> s
SetupFails(e) == Failing([ raised |-> e.raised = "", kept |-> e.twave = Pick(e.wave, Used(e)), mask |-> e.tmask = FitMask(e),
                           lines |-> e.rest = [i \in 1..Len(e.names) |-> [j \in 1..Len(Groups[e.names[i]]) |-> RestWave[Groups[e.names[i]][j]]]] ])
Same(c, p, x) == Len(p) = Size(c) /\ \A i \in 1..Size(c) : Abs(p[i] - x[i]) <= 1
(* the redshift may start a thousandth of its range away from the guess        *)
Starts(c, x, y) == Len(y) = Size(c) /\ \A i \in 1..Size(c) : Abs(x[i] - y[i]) <= (IF i = 1 THEN 2 + ZRoom(c) \div 500 ELSE 1)
Call(c, p, neg, call) == /\ Starts(c, From(c, p, neg), call[1])
                         /\ Len(call[2]) = Size(c) /\ \A i \in 1..Size(c) : Abs(call[2][i] - Lower(c, neg, i)) <= 1
                         /\ Len(call[3]) = Size(c) /\ \A i \in 1..Size(c) : Abs(call[3][i] - Upper(c, i)) <= 1
Calls(s, e) == Searches(e.results[1]) + IF Writes(s, e) THEN s.c.num ELSE 0
(* the residual of a search at a point of reference                           *)
Resid(c, e, v) ==
  LET keep == SortedSeq({i \in 1..Len(c.tmask) : c.tmask[i] = 1})
      sets == TLCEval(SetsAtZ(c.names, c.zk, e.at.j, e.at.q))
  IN Len(v) = Len(keep) /\ \A n \in 1..Len(keep) :
       LET i == keep[n] w == c.twave[i] m == SpectrumAt(sets, e.at.flux, e.at.cont, w) - c.tflux[i]
       IN IF c.tbad[i] THEN v[n] = 0 ELSE Abs((v[n] * c.terr[i]) \div 100 - m) <= Slack(sets, e.at.flux, e.at.cont, w) + c.terr[i] \div 50 + 2
(* the perturbations are independent and of unit variance                     *)
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Flat(Tail(x))
Noise(x) == LET f == TLCEval(Flat(x)) N == Len(f) s1 == SumSeq(f) s2 == SumSeq([i \in 1..N |-> (f[i] * f[i]) \div 100])
            IN N > 20 => /\ Abs(s1) <= 600 * (Root(N) + 1)
                         /\ Abs(s2 - 100 * N) <= 600 * (Root(2 * N) + 2)
                         /\ Cardinality(Range(x)) = Len(x)
ErrsOK(s, e) == LET c == s.c rows == Rows(s, e)
                IN Len(e.errs) = Size(c) /\ \A i \in 1..Size(c) :
                     LET x == IF e.noerr THEN <<0, 0>> ELSE Errors(e.stored[i], Column(rows, i))
                     IN \A b \in 1..2 : Abs(e.errs[i][b] - x[b]) <= (IF e.noerr THEN 0 ELSE 48)
ModelOK(s, e) == LET c == s.c r == e.results[Searches(e.results[1])] x == e.raw
                     sets == TLCEval(SetsAtZ(c.names, c.zk, x.j, x.q))
                 IN x.q > 0 => Len(e.model) = Len(c.twave) /\ \A i \in 1..Len(c.twave) :
                       Abs(e.model[i] - SpectrumAt(sets, x.flux, x.cont, c.twave[i])) <= Slack(sets, x.flux, x.cont, c.twave[i])
FitFails(s, e) ==
  IF e.raised # Raised(s, e) THEN {"raised " \o e.raised}
  ELSE IF s.c.res < 0 THEN Failing([ nothing |-> e.calls = <<>> /\ Same(s.c, e.stored, s.guess) ])
  ELSE LET c == s.c n == Searches(e.results[1])
       IN Failing([
            count |-> Len(e.calls) = Calls(s, e),
            first |-> Call(c, Guess(s), {}, e.calls[1]),
            second |-> (n = 2 /\ Len(e.calls) >= 2) => Call(c, Guess(s), Negative(e.results[1]), e.calls[2]),
            perturbed |-> \A i \in (n + 1)..Len(e.calls) : Call(c, Found(e), {}, e.calls[i]),
            data |-> Len(e.resid) = n /\ \A i \in 1..Len(e.resid) : Resid(c, e, e.resid[i]),
            noise |-> Len(e.noise) = Len(e.calls) - n /\ Noise(e.noise),
            stored |-> Same(c, e.stored, Found(e)),
            model |-> ModelOK(s, e),
            errors |-> IF e.raised = "" THEN ErrsOK(s, e) ELSE e.errs = s.errs,
            files |-> \A f \in 1..2 : LET want == IF Writes(s, e) /\ e.file = f THEN Rows(s, e) ELSE s.files[f]
                                     IN Len(e.files[f]) = Len(want) /\ \A i \in 1..Len(want) : Same(c, e.files[f][i], want[i]),
            untouched |-> e.same ])
CorrFails(s, e) ==
  LET c == s.c v == s.guess[2] want == v * v - c.res * c.res
      ok(x) == x >= 0 /\ IF Abs(v) <= Abs(c.res) THEN x = 0 ELSE Abs(x * x - want) <= 3 * Abs(v) + 3 * x + 4
      raised == IF c.nores \/ e.noerr THEN "" ELSE IF e.file = 0 THEN "ValueError" ELSE IF s.files[e.file] = <<>> THEN "FileNotFoundError" ELSE ""
  IN IF e.raised # raised THEN {"raised " \o e.raised}
     ELSE IF c.nores THEN Failing([ nothing |-> e.value = -1 /\ e.errs = <<>> ])
     ELSE Failing([ corrected |-> ok(e.value),
                    errors |-> e.raised = "" =>
                       LET x == IF e.noerr THEN <<0, 0>> ELSE CorrErrors(v, Column(s.files[e.file], 2), c.res)
                       IN Len(e.errs) = 2 /\ \A b \in 1..2 : Abs(e.errs[b] - x[b]) <= (IF e.noerr THEN 0 ELSE 64) ])
RecoverFails(e) == Failing([ found |-> Len(e.found) = Len(e.truth) /\ \A i \in 1..Len(e.truth) : Abs(e.found[i] - e.truth[i]) <= 2 + Abs(e.truth[i]) \div 2000,
                             model |-> \A i \in 1..Len(e.model) : Abs(e.model[i] - e.expected[i]) <= 20 + Abs(e.expected[i]) \div 1000 ])
(* errors of real perturbations agree with those expected of a linear fit     *)
ScatterFails(e) == Failing([ size |-> Len(e.errs) = Len(e.linear) /\ \A i \in 1..Len(e.errs) :
                               LET w == e.errs[i][1] + e.errs[i][2] IN w * 10 >= 11 * e.linear[i] /\ w * 10 <= 32 * e.linear[i] ])
TFails(s, e) == CASE e.k = "setup" -> SetupFails(e)
                  [] e.k = "fit" -> FitFails(s, e)
                  [] e.k = "corr" -> CorrFails(s, e)
                  [] e.raised # "" -> {"raised " \o e.raised}
                  [] e.k = "recover" -> RecoverFails(e)
                  [] OTHER -> ScatterFails(e)
=============================================================================

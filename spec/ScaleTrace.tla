----------------------------- MODULE ScaleTrace -----------------------------
(* "scale": an explicit model scaled to the data; "fit": goodness of fit of an *)
(* explicit model; "made": what making or updating a model does.              *)
EXTENDS Scale, TraceKit
TInit == [x |-> 0]
TStep(s, e) == s
D(e) == [flux |-> e.flux, err |-> e.err, model |-> e.model, mask |-> e.mask, weight |-> e.weight, nosky |-> {e.nosky[i] : i \in 1..Len(e.nosky)}, free |-> e.free]
(* scaled model in 1/1000                                                     *)
ScaleFails(e) ==
  LET d == TLCEval(D(e))
  IN Failing([ amplitude |-> \A j \in Rows(d) : LET a == TLCEval(Amp(d, j)) IN \A i \in Chans(d) :
                   \* q = 1000 m num/den, compared without overflow: whole part and remainder
                   LET p == d.model[j][i] * a[1] IN Abs(e.out[j][i] - 1000 * (p \div a[2]) - ((1000 * (p % a[2])) \div a[2])) <= 1 ])
FitFails(e) ==
  LET d == TLCEval(D(e)) c == TLCEval(Chi(d, TRUE)) u == TLCEval(Chi(d, FALSE)) n == Dof(d)
  IN Failing([ chisq |-> Abs(e.chisq - c) <= 1,
               plain |-> Abs(e.plain - u) <= 1,
               llike |-> Abs(e.llike - NegLike(d)) <= 2,
               reduced |-> n # 0 => IsRatio(e.red, c, n, 1),
               reducedplain |-> n # 0 => IsRatio(e.redplain, u, n, 1),
               reference |-> n # 0 => IsRatio(e.redref, 100 * Weights(d), n, 1) ])
(* u: the unscaled model, largest value of each row 200; out: the model the    *)
(* fit sees, in 1/100; the scaled rows are multiples of the unscaled ones and  *)
(* leave no residual along them                                               *)
MadeFails(e) ==
  LET d == TLCEval(D(e))
      W(j, i) == Iv(d.err[j][i])
      mult(j) == LET p == CHOOSE i \in Chans(d) : d.model[j][i] = 200
                 IN \A i \in Chans(d) : Abs(e.out[j][i] * 200 - e.out[j][p] * d.model[j][i]) <= 101 + Abs(e.out[j][p]) \div 2 + d.model[j][i]
      normal(j) == LET s == SumS([i \in Chans(d) |-> W(j, i) * d.model[j][i] * (100 * d.flux[j][i] - e.out[j][i])], Used(d, j))
                       tol == SumS([i \in Chans(d) |-> W(j, i) * (d.model[j][i] + Abs(100 * d.flux[j][i] - e.out[j][i]))], Used(d, j))
                   IN Abs(s) <= tol
      dead(j) == Used(d, j) = {} => \A i \in Chans(d) : e.out[j][i] = 0
  IN Failing([ multiple |-> \A j \in Rows(d) : mult(j), residual |-> \A j \in Rows(d) : normal(j), dead |-> \A j \in Rows(d) : dead(j),
               same |-> e.again = e.out ])
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE CASE e.k = "scale" -> ScaleFails(e) [] e.k = "fit" -> FitFails(e) [] e.k = "made" -> MadeFails(e) [] OTHER -> {}
=============================================================================

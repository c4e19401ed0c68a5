------------------------------ MODULE PlotTrace -----------------------------
(* "new": fit id is made.  "op": an operation on it.  "results": what it is    *)
(* after sampling.  "trace", "corner", "spectra": the figures it drew.         *)
EXTENDS Plot, TraceKit
TInit == <<>>
TStep(s, e) == CASE e.k = "new" -> Append(s, [fit |-> e.fit, res |-> [none |-> TRUE]])
                 [] e.k = "results" -> [s EXCEPT ![e.id].res = e.res]
                 [] OTHER -> s
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* every operation succeeds, leaves its files, what it saves is what was fit, and drawing changes nothing     *)
OpFails(e) == Failing([ raised |-> e.raised = "", stored |-> e.stored, files |-> e.files = e.want, fit |-> (e.op = "plot") => e.same, figures |-> e.figs = e.nfigs ])
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
(* --- trace of each walker                                                    *)
TraceFails(f, r, e) ==
  LET free == FreeIdx(f.vary)
  IN Failing([ panels |-> Len(e.axes) = Len(free), labels |-> \A i \in 1..Len(e.axes) : e.axes[i].label = f.nice[free[i]],
               steps |-> \A i \in 1..Len(e.axes) : \A j \in 1..Len(e.axes[i].lines) : Len(e.axes[i].lines[j]) = e.steps,
               walkers |-> \A i \in 1..Len(e.axes) : Len(e.axes[i].lines) >= f.walkers,
               series |-> e.main => \A i \in 1..Len(e.axes) : {r.chain[j][i] : j \in 1..Len(r.chain)} = SetOf(e.axes[i].lines) ])
(* --- posteriors                                                              *)
(* a number quoted in hundredths for a value in units of 1/sc                  *)
Quoted(t, v, sc) == Abs(t * (sc \div 100) - v) <= sc \div 200 + 2
HistOk(h, s, c) ==
  LET d == IF c THEN 0 ELSE 2 IN
  /\ Len(h.n) >= 5 /\ Len(h.edges) = Len(h.n) + 1 /\ SumSeq(h.n) = Len(s)
  /\ (~c) => Abs(h.edges[1] - s[1]) <= 2 /\ Abs(h.edges[Len(h.edges)] - s[Len(s)]) <= 2
  /\ \A b \in 1..Len(h.n) : LET lo == h.edges[b] hi == h.edges[b + 1] IN
       /\ h.n[b] >= Cardinality({i \in 1..Len(s) : s[i] > lo + 2 /\ s[i] < hi - 2})
       /\ h.n[b] <= Cardinality({i \in 1..Len(s) : s[i] >= lo - 2 /\ s[i] <= hi + 2})
CornerFails(f, r, e) ==
  LET K == Shown(f.vary)
      nm == TLCEval(Names(f.vary, f.nice, f.tex))
      srt == TLCEval([i \in 1..(K + 2) |-> Ordered(r.cols[i])])
      const(i) == srt[i][1] = srt[i][Len(srt[i])]
      at(i, j) == e.axes[(i - 1) * K + j]
      lo == TLCEval([i \in 1..K |-> Percentile(srt[i], 15865)])
      up == TLCEval([i \in 1..K |-> Percentile(srt[i], 84135)])
      sg == SigmaCol(f.vary)
      v == VreCol(f.vary)
      turn(a, b) == IF (Abs(a) <= 3 \/ Abs(b) <= 3) THEN {"rot", "disp"} ELSE IF (a < 0) = (b < 0) THEN {"rot"} ELSE {"disp"}
      opp == Cardinality({i \in 1..Len(r.cols[v]) : (r.cols[v][i] < 0 /\ r.best[v] > 0) \/ (r.cols[v][i] > 0 /\ r.best[v] < 0)})
      N == Len(r.cols[1])
      pairs == IF f.links = <<>> THEN {} ELSE {l \in 1..Len(f.links) : Len(f.links[l]) > 1}
      \* free parameter 1 of a pair scales the velocity: along the curve V at the radius is the best one
      curve(l, rad, V, pts) ==
        LET free == FreeIdx(f.vary) p2 == free[f.links[l][2]] IN
        \A i \in 1..Len(pts) : LET rt == IF p2 = 2 THEN pts[i][2] ELSE r.theta[2] IN
             (Abs(pts[i][1]) < 3000000 /\ Abs(V) < 1000000) =>
               Abs((pts[i][1] \div 10) * (rad \div 10) - (V \div 10) * ((rad + rt) \div 10)) <= 200 + 2 * (Abs(pts[i][1]) \div 10 + Abs(V) \div 10 + (rad + rt) \div 10)
      curvesOf(i, j) == {l \in pairs : f.links[l][1] = j /\ f.links[l][2] = i}
  IN IF Len(e.axes) # K * K THEN {"panels"} ELSE
     Failing([
       hist |-> \A i \in 1..K : HistOk(at(i, i).hist, srt[i], const(i)),
       lines |-> \A i \in 1..K : NearAll(at(i, i).v, Ordered([q \in 1..4 |-> Percentile(srt[i], Cuts[q])] \o <<r.best[i]>>), 3 + (srt[i][N] - srt[i][1]) \div 10000) /\ at(i, i).y = <<>>,
       cross |-> \A i \in 1..K : \A j \in 1..K : IF j < i THEN NearAll(at(i, j).v, <<r.best[j]>>, 2) /\ NearAll(at(i, j).y, <<r.best[i]>>, 2)
                                                 ELSE (j > i) => (at(i, j).v = <<>> /\ at(i, j).y = <<>> /\ at(i, j).curves = <<>>),
       title |-> \A i \in 1..K : at(i, i).name = nm[i],
       quote |-> \A i \in 1..K : LET q == at(i, i).quote IN Len(q) = 3 /\ Quoted(q[1], r.best[i], r.sc[i]) /\ Quoted(q[2], r.best[i] - lo[i], r.sc[i]) /\ Quoted(q[3], up[i] - r.best[i], r.sc[i]),
       labels |-> \A j \in 1..K : at(K, j).xlabel = nm[j] /\ (j > 1 => at(j, 1).ylabel = nm[j]),
       shape |-> e.shape = <<f.n100, f.re100>>,
       sigma |-> Len(e.sigma) = 3 /\ Quoted(e.sigma[1], r.best[sg], r.sc[sg]) /\ Quoted(e.sigma[2], r.best[sg] - Percentile(srt[sg], 15865), r.sc[sg])
                                  /\ Quoted(e.sigma[3], Percentile(srt[sg], 84135) - r.best[sg], r.sc[sg]),
       vre1 |-> Len(e.v1) = 3 /\ Quoted(e.v1[1], r.best[v], r.sc[v]) /\ Quoted(e.v1[2], r.best[v] - lo[v], r.sc[v]) /\ Quoted(e.v1[3], up[v] - r.best[v], r.sc[v]),
       vre2 |-> LET l2 == Percentile(srt[v], 2275) u2 == Percentile(srt[v], 97725) IN
                Len(e.v2) = 3 /\ Quoted(e.v2[1], r.best[v], r.sc[v]) /\ Quoted(e.v2[2], r.best[v] - l2, r.sc[v]) /\ Quoted(e.v2[3], u2 - r.best[v], r.sc[v])
                   /\ e.d2 \in turn(l2, u2),
       decision |-> e.d1 \in turn(lo[v], up[v]),
       opposite |-> Abs(e.opp * N - 100000 * opp) <= N,
       curves |-> \A i \in 1..K : \A j \in 1..(i - 1) :
           LET ls == curvesOf(i, j) cs == at(i, j).curves IN
           IF ls = {} THEN cs = <<>>
           ELSE LET l == CHOOSE x \in ls : TRUE IN
                Len(cs) = 2 /\ (f.flat => \A c \in 1..2 : Len(cs[c]) > 10 /\ curve(l, IF c = 1 THEN f.rm ELSE f.r22, r.best[IF c = 1 THEN v ELSE v + 1], cs[c])) ])
(* --- spectrum, model and difference                                           *)
Grid(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t \/ (Abs(a[i]) >= 1000000000 /\ Abs(b[i]) >= 1000000000)   \* recorded up to 2^30
SpectraFails(f, r, e) ==
  LET model == "model" \in DOMAIN r
      n == f.rows nw == f.nw
      low == SetOf(f.low) sky == SetOf(f.sky)
      ns == SetOf(f.nosky)
      vals == {f.flux[y * nw + x + 1] : y \in 0..(n - 1), x \in ns}
      want == IF model THEN <<f.flux, r.model, [i \in 1..(n * nw) |-> f.flux[i] - r.model[i]]>> ELSE <<f.flux>>
      mid == IF model THEN f.m0 + r.shift ELSE f.m0
      reach == Reach(f.re, f.fwhm, f.pc, f.pd, f.pix)
      hs == {mid - reach, mid, mid + reach} \cup {500 * b : b \in Bounds2(low, n)}
      near(a, S) == \E b \in S : Abs(a - b) <= 8
  IN IF Len(e.imgs) # Len(want) THEN {"panels"} ELSE
     Failing([
       image |-> \A i \in 1..Len(want) : e.imgs[i].shape = <<n, nw>> /\ Grid(e.imgs[i].data, want[i], 2),
       upright |-> \A i \in 1..Len(want) : e.imgs[i].origin = "lower",
       scale |-> \A i \in 1..Len(want) : e.imgs[i].lim = <<SetMin(vals), SetMax(vals)>>,
       rows |-> \A i \in 1..Len(want) : LET h == SetOf(e.imgs[i].hl) IN (\A a \in h : near(a, hs)) /\ (\A a \in hs : near(a, h)),
       columns |-> \A i \in 1..Len(want) : SetOf(e.imgs[i].vl) = {500 * b : b \in Bounds2(sky, nw)},
       masked |-> \A i \in 1..Len(want) : SetOf(e.imgs[i].boxes) = RowBoxes(low, n, nw) \cup ColBoxes(sky, n, nw),
       titles |-> \A i \in 1..Len(want) : e.imgs[i].title = <<"Spec", "Model", "Residual">>[i] ])
TFails(s, e) == CASE e.k = "new" -> IF e.raised = "" THEN {} ELSE {"raised"}
                  [] e.k = "op" -> OpFails(e)
                  [] e.k = "results" -> IF e.raised = "" THEN {} ELSE {"raised"}
                  [] e.k = "trace" -> TraceFails(s[e.id].fit, s[e.id].res, e)
                  [] e.k = "corner" -> CornerFails(s[e.id].fit, s[e.id].res, e)
                  [] e.k = "spectra" -> SpectraFails(s[e.id].fit, s[e.id].res, e)
                  [] OTHER -> {"unknown"}
=============================================================================

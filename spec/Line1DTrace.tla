---------------------------- MODULE Line1DTrace -----------------------------
(* Spectra and residuals computed by the code, sample by sample.              *)
EXTENDS Line1D, TraceKit
TInit == 0
TStep(s, e) == s
Named(e) == [i \in 1..Len(e.names) |-> GroupLines(e.names[i], e.z, e.q)]
Own(e) == <<[i \in 1..Len(e.rest) |-> Line(e.rest[i], e.ratio[i], e.z, e.q)]>>
Near(v, sets, e, i) == Abs(v - SpectrumAt(sets, e.flux, e.cont, e.wave[i])) <= Slack(sets, e.flux, e.cont, e.wave[i])
ProfileFails(e) ==
  LET sets == TLCEval(Named(e))
  IN Failing([ values |-> Len(e.value) = Len(e.wave) /\ \A i \in 1..Len(e.wave) : Near(e.value[i], sets, e, i),
               kept |-> e.kept = <<e.z, e.q, e.flux, e.cont>> ])
GroupFails(e) ==
  LET sets == TLCEval(IF e.own THEN Own(e) ELSE Named(e))
  IN Failing([ values |-> Len(e.value) = Len(e.wave) /\ \A i \in 1..Len(e.wave) : Near(e.value[i], sets, e, i) ])
(* lines of a given shape, at given places and with given widths              *)
ShapeFails(e) == Failing([ calls |-> e.calls = [i \in 1..Len(e.rest) |-> <<(e.rest[i] * (64 + e.z)) \div 64, (e.flux[1] * (e.ratio[i] \div 100)) \div 100>>],
                           adds |-> e.value = Len(e.rest) ])
ResidualFails(e) ==
  LET sets == TLCEval(Named(e))
      keep == SortedSeq(Kept(e.mask))
      good(i) == ~e.bad[i]
  IN Failing([ length |-> Len(e.value) = Len(keep),
               scaled |-> Len(e.value) = Len(keep) =>
                  \A n \in 1..Len(keep) : LET i == keep[n]
                                             m == SpectrumAt(sets, e.flux, e.cont, e.wave[i]) - e.data[i]
                                         IN good(i) => Abs((e.value[n] * e.err[i]) \div 100 - m) <= Slack(sets, e.flux, e.cont, e.wave[i]) + Abs(e.err[i]) \div 50 + 2,
               dropped |-> Len(e.value) = Len(keep) => \A n \in 1..Len(keep) : ~good(keep[n]) => e.value[n] = 0,
               inputs |-> e.same ])
TFails(s, e) == IF e.raised # (IF e.k = "odd" THEN "ValueError" ELSE "") THEN {"raised " \o e.raised}
                ELSE CASE e.k = "profile" -> ProfileFails(e)
                       [] e.k = "group" -> GroupFails(e)
                       [] e.k = "shape" -> ShapeFails(e)
                       [] e.k = "residual" -> ResidualFails(e)
                       [] OTHER -> {}
=============================================================================

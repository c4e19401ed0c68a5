------------------------------ MODULE PostTrace -----------------------------
EXTENDS Post, TraceKit
Theta == <<"V_a", "r_t", "sigma0", "m0_shift", "z">>
TInit == [vary |-> <<>>, fixed |-> <<>>, cols |-> <<>>, disp |-> 0, abs |-> FALSE, links |-> <<>>, rm |-> 0, solid |-> FALSE, last |-> <<>>]
TStep(s, e) ==
  CASE e.k = "fit" -> [s EXCEPT !.vary = e.vary, !.fixed = e.fixed, !.disp = Place(e.vary, 3), !.rm = e.rm, !.solid = e.solid]
    [] e.k = "chain" -> [s EXCEPT !.cols = e.cols, !.last = <<>>]
    [] e.k = "ask" -> [s EXCEPT !.abs = e.abs, !.links = e.links, !.last = <<>>]
    [] e.k = "analyse" -> [s EXCEPT !.cols = Prepared(s), !.last = IF e.raised = "" THEN e.res ELSE <<>>]
    [] OTHER -> s
Eq(a, b, t) == Abs(a - b) <= t
Lims(r, s, t) == /\ Eq(r.best - r.lo1, Perc(s, P1[1]), t) /\ Eq(r.best + r.hi1, Perc(s, P1[2]), t)
                 /\ Eq(r.best - r.lo2, Perc(s, P2[1]), t) /\ Eq(r.best + r.hi2, Perc(s, P2[2]), t)
Summary(s, e, x, k, t) ==
  LET r == e.res[k] o == TLCEval(ToSorted(x))
  IN Failing([ limits |-> Lims(r, o, t),
               sign |-> Abs(r.best - 16 * r.zero) > 32 => Eq(r.opp, Opposite(x, r.zero, r.best), 1),
               peak |-> k \notin Linked(s.links) =>
                          IF Constant(x) THEN Eq(r.best, 16 * x[1], 16)
                          ELSE LET h == TLCEval(Width(x, 1)) IN IsPeak(x, h, r.best) /\ Highest(x, h, r.best) ])
Joint(s, e, c, i) ==
  LET l == s.links[i]
  IN IF \E k \in Range(l) : Decider(s.links, k) # i THEN TRUE
     ELSE IF Len(l) = 1 THEN LET h == TLCEval(Width(c[l[1]], 1)) IN IsPeak(c[l[1]], h, e.res[l[1]].best)
     ELSE IF Len(l) = 2 THEN IsJointPeak(c[l[1]], c[l[2]], e.res[l[1]].best, e.res[l[2]].best)
     ELSE TRUE
Value(s, c, i, n) == IF s.vary[i] THEN c[Place(s.vary, i)][n] ELSE s.fixed[i]
AnalyseFails(s, e) ==
  LET c == TLCEval(Prepared(s)) nf == Len(c) N == Len(c[1])
      st == Failing([
        columns |-> e.width = nf + 4 /\ e.free = c,
        walkers |-> e.chain = c,
        names |-> e.names = FreeNames(Theta, s.vary) \o Derived,
        own |-> \A k \in 1..4, n \in 1..N : Eq(e.der[k][n], e.own[k][n], 1),
        solid |-> s.solid => \A n \in 1..N : LET v == Value(s, c, 1, n) IN
                     /\ Eq(e.der[1][n], FloorDiv(100 * v * s.rm, 256), 2)
                     /\ Eq(e.der[2][n], FloorDiv(100 * FloorDiv(550 * v * s.rm, 419), 256), 2)
                     /\ Eq(e.der[3][n], FloorDiv(100 * Value(s, c, 3, n), 8), 2) /\ e.der[4][n] = e.der[3][n],
        repeated |-> s.last # <<>> => e.res = s.last,
        joint |-> \A i \in 1..Len(s.links) : Joint(s, e, c, i),
        fitting |-> Len(e.fitting) = nf /\ \A k \in 1..nf : Eq(e.fitting[k], e.res[k].best, 1),
        handed |-> e.full => /\ \A i \in 1..5 : IF s.vary[i] THEN Eq(e.theta[i], e.res[Place(s.vary, i)].best, 1) ELSE e.theta[i] = 16 * s.fixed[i]
                             /\ e.theta = e.bestfit /\ e.modelled ])
  IN st \cup (IF e.width # nf + 4 THEN {} ELSE UNION {Summary(s, e, IF k <= nf THEN c[k] ELSE e.res[k].x, k, IF k <= nf THEN 3 ELSE 20) : k \in 1..(nf + 4)})
TFails(s, e) ==
  CASE e.k = "analyse" -> IF e.raised # "" THEN {"analysis raised"} ELSE AnalyseFails(s, e)
    [] OTHER -> {}
=============================================================================

---------------------------- MODULE MotionTrace -----------------------------
(* "rows": mean wavelength of every line and width in every row of an         *)
(* unblurred model; "vrows": the same in velocity space; "cube": per pixel;   *)
(* "sini", "curve": inclination and rotation curve tables; "base"/"rel":      *)
(* row velocities of related views of real galaxies.                          *)
EXTENDS Motion, TraceKit
TInit == [v |-> <<>>]
TStep(s, e) == IF e.k = "base" THEN [v |-> e.v] ELSE s
(* variance in 0.01 (km/s)^2: rotation and dispersion                         *)
Width(c, m, e) == 100 * VarV(c, m) + e.sig10 * e.sig10
NearW(c, got, want) == Abs(got - want) <= 40 + want \div 200 + (c.K * c.K) \div 20
NearL(c, got, want) == Abs(got - want) <= 3 + Abs(c.K) \div 50
NearV(c, got, want) == Abs(got - want) <= 20 + 2 * Abs(c.K)
RowsFails(e) ==
  LET M == TLCEval([j \in 1..e.c.rows |-> Moments(e.c, j - 1, AllCols(e.c))])
      L == Groups[e.group]
  IN Failing([ lines  |-> Len(e.obs) = Len(L),
               wavelength |-> Len(e.obs) = Len(L) => \A i \in 1..Len(L) : \A j \in 1..e.c.rows : NearL(e.c, e.obs[i][j], Observed(RestWave[L[i]], e.zn, MeanV(e.c, M[j]))),
               width  |-> \A i \in 1..Len(e.var) : \A j \in 1..e.c.rows : NearW(e.c, e.var[i][j], Width(e.c, M[j], e)) ])
VRowsFails(e) ==
  LET M == TLCEval([j \in 1..e.c.rows |-> Moments(e.c, j - 1, AllCols(e.c))])
  IN Failing([ velocity |-> \A j \in 1..e.c.rows : NearV(e.c, e.v[j], MeanV(e.c, M[j])),
               width    |-> \A j \in 1..e.c.rows : NearW(e.c, e.var[j], Width(e.c, M[j], e)) ])
CubeFails(e) ==
  LET q == CubeView(e.c)
  IN Failing([ cube |-> \A j, i \in 1..e.c.rows : NearV(q, e.v[j][i], MeanV(q, Moments(q, j - 1, <<(i-1)*q.ns, i*q.ns - 1>>))) ])
Near(a, b) == Abs(a - b) <= 30
Rel(f, e) ==
  LET g == e.v n == Len(f) IN
  Len(g) = n /\ CASE e.rel = "same" -> \A j \in 1..n : Near(g[j], f[j])
                  [] e.rel = "neg"  -> \A j \in 1..n : Near(g[j], -f[j])
                  [] e.rel = "flip" -> \A j \in 1..n : Near(g[n + 1 - j], f[j])
                  [] e.rel = "shift" -> \A j \in 1..n : (j + e.by \in 1..n) => Near(g[j + e.by], f[j])
                  [] e.rel = "zero" -> \A j \in 1..n : Near(g[j], 0)
                  (* above and below the object the velocity has the sign of Va *)
                  [] e.rel = "sense" -> \A j \in 1..n : g[j] * e.va * (4 * (j - 1) - e.m4) * e.sense >= -50000
                  [] OTHER -> FALSE
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE CASE e.k = "rows" -> RowsFails(e)
         [] e.k = "vrows" -> VRowsFails(e)
         [] e.k = "cube" -> CubeFails(e)
         [] e.k = "rel"  -> IF Rel(s.v, e) THEN {} ELSE {e.rel \o " " \o e.why}
         [] e.k = "sini" -> Failing([ sini |-> Abs(e.s2 - Sin2(e.q, e.q0)) <= 150, used |-> e.aper = e.s2 ])
         [] e.k = "curve" -> Failing([ speed |-> Abs(e.v - Arctan(e.Va, e.t)) <= 2, disp |-> e.s = e.sigma ])
         [] OTHER -> {}
=============================================================================

----------------------------- MODULE SlitTrace ------------------------------
(* "view": an unblurred model image of a polynomial galaxy, compared row by   *)
(* row with the specification.  Real light profiles: "base" an image, later   *)
(* "rel" events the image of a related view.  "profile": the light profile.   *)
EXTENDS Slit, Tables, TraceKit
TInit == [img |-> <<>>]
TStep(s, e) == IF e.k = "base" THEN [img |-> e.img] ELSE s
Close(got, want) == Abs(got - want) <= 3 + Abs(want) \div 30000
Ratios(g) == LET L == Groups[g] IN SumF([i \in 1..Len(L) |-> Ratio[L[i]]], 1, Len(L))
(* e.img is per unit of line flux ratio only for the whole set: undo 1e6      *)
ViewFails(e) ==
  LET w == TLCEval(Image(e.c))
  IN Failing([ rows   |-> Len(e.img) = e.c.rows,
               flux   |-> Len(e.img) = e.c.rows => \A j \in 1..e.c.rows : Close(e.img[j], w[j]),
               ratios |-> e.ratio = Ratios(e.group) ])
CubeFails(e) ==
  LET w == TLCEval(Cube(e.c))
  IN Failing([ shape |-> Len(e.img) = e.c.rows /\ \A j \in 1..Len(e.img) : Len(e.img[j]) = e.c.rows,
               flux  |-> \A j \in 1..e.c.rows, i \in 1..e.c.rows : Close(e.img[j][i], w[j][i]) ])
Near(a, b) == Abs(a - b) <= 40 + Abs(b) \div 12000
Rel(f, e) ==
  LET g == e.img n == Len(f) IN
  Len(g) = n /\ CASE e.rel = "shift" -> \A j \in 1..n : (j + e.by \in 1..n) => Near(g[j + e.by], f[j])
                  [] e.rel = "same"  -> \A j \in 1..n : Near(g[j], f[j])
                  [] e.rel = "flip"  -> \A j \in 1..n : Near(g[n + 1 - j], f[j])
                  [] e.rel = "wider" -> \A j \in 1..n : Near(g[j], f[j] + e.left[j] + e.right[j])
                  [] OTHER -> FALSE
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE CASE e.k = "view" -> ViewFails(e)
         [] e.k = "cube" -> CubeFails(e)
         [] e.k = "rel"  -> IF Rel(s.img, e) THEN {} ELSE {e.rel \o " " \o e.why}
         [] e.k = "profile" -> Failing([ profile |-> \A i \in 1..Len(e.pts) : Abs(e.pts[i].ln - 1000 * LnI(e.n4, e.pts[i].k2, e.pts[i].t, e.scale)) <= 20 ])
         [] OTHER -> {}
=============================================================================

------------------------------ MODULE BlurTrace -----------------------------
(* "gauss", "moffat", "dither": stamps; "image", "cube": a few sub-pixels of  *)
(* light seen through the seeing; "inst": rows before and after the           *)
(* instrument's broadening; "fine": a model computed with adaptive sampling   *)
(* against one computed on an explicitly finer grid; "floor".                 *)
EXTENDS Blur, TraceKit
TInit == [x |-> 0]
TStep(s, e) == s
Ns(e) == e.ns
Setup(e) == [c |-> [ny |-> e.rows * e.ns, nx |-> e.nx, py |-> Pad(e.F4, e.p), px |-> Pad(e.F4x, e.p), S |-> e.S, w |-> e.w, jy |-> e.jy, kx |-> e.kx]]
StampShape(e) == /\ Len(e.S) = 2 * Half(e.F4) + 1
                 /\ \A i \in 1..Len(e.S) : Len(e.S[i]) = 2 * Half(e.F4x) + 1
StampCentred(e) == LET ny == Len(e.S) nx == Len(e.S[1])
                   IN \A i \in 1..ny, j \in 1..nx : /\ e.S[i][j] = e.S[ny + 1 - i][nx + 1 - j] /\ e.S[i][j] = e.S[i][nx + 1 - j]
                                                    /\ e.S[i][j] <= e.S[Half(e.F4) + 1][Half(e.F4x) + 1]
(* Gaussian stamps have the seeing's width, whatever the sub-pixels' shape     *)
StampWidth(e) == \A i \in 1..Len(e.L) : \A j \in 1..Len(e.L[i]) :
                   LET dy == i - 1 - Half(e.F4) dx == j - 1 - Half(e.F4x)
                   IN Abs(e.L[i][j] - GaussLog2(e.F4, dy, 0) - GaussLog2(e.F4x, 0, dx)) <= 4
(* shares of the light to 6e-5 of it (the stamp is rounded to 1e-4 of its peak) *)
Near(got, want, light) == Abs(got - want) <= 60 * light + want \div 2000
ImageFails(e) ==
  IF ~(StampShape(e)) THEN {"stamp size"}
  ELSE LET c == TLCEval(Setup(e).c) l == Light(c) w == TLCEval(IF e.k = "image" THEN Image(c, e.ns) ELSE CubeImage(c, e.ns))
       IN Failing([ centred |-> StampCentred(e),
                    stampwidth |-> StampWidth(e),
                    rows |-> Len(e.img) = e.rows,
                    blur |-> \A r \in 1..e.rows : IF e.k = "image" THEN Near(e.img[r], w[r], l) ELSE \A q \in 1..Len(w[r]) : Near(e.img[r][q], w[r][q], l) ])
InstFails(e) == Failing([ flux  |-> \A j \in 1..Len(e.flux) : Abs(e.flux2[j] - e.flux[j]) <= 30,
                          moved |-> \A j \in 1..Len(e.mean) : Abs(e.mean2[j] - e.mean[j]) <= 3,
                          width |-> \A j \in 1..Len(e.var) : Abs(e.var2[j] - e.var[j] - e.res10 * e.res10) <= 40 + e.var2[j] \div 200 ])
FineFails(e) ==
  LET up == Narrow(e.r) /\ e.adaptive
      (* each reported sample is the mean of the f finer ones it covers          *)
      bad == {<<j, i>> \in (1..Len(e.got)) \X (1..Len(e.grid)) :
                IF up THEN Abs(e.f * e.got[j][i] - SumB([k \in 1..e.f |-> e.fine[j][e.f * (i - 1) + k]], 1, e.f)) > 8 * e.f
                ELSE Abs(e.got[j][i] - e.coarse[j][i]) > 5}
  IN Failing([ grid  |-> e.grid2 = e.grid /\ e.n2 = Len(e.grid),
               shape |-> \A j \in 1..Len(e.got) : Len(e.got[j]) = Len(e.grid),
               model |-> bad = {} ])
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE CASE e.k = "gauss" -> Failing([ gaussian |-> \A i \in 1..Len(e.pts) : Abs(e.pts[i].v - GaussLog2(e.F4, e.pts[i].dy, e.pts[i].dx)) <= 3 ])
         [] e.k = "moffat" -> Failing([ moffat |-> \A i \in 1..Len(e.pts) : Abs(e.pts[i].v + e.b10 * 100 * e.pts[i].m) <= 3 ])
         [] e.k = "dither" -> Failing([ dither |-> \A i \in 1..Len(e.D), j \in 1..Len(e.D[1]) :
                                Abs(2 * e.D[i][j] - Dithered(e.P, e.d, i - 1 - Len(e.D) \div 2, j - 1 - Len(e.D[1]) \div 2)) <= 6 ])
         [] e.k \in {"image", "cube"} -> ImageFails(e)
         [] e.k = "inst" -> InstFails(e)
         [] e.k = "fine" -> FineFails(e)
         [] e.k = "floor" -> Failing([ floor |-> \A j \in 1..Len(e.a) : \A i \in 1..Len(e.a[j]) : Abs(e.a[j][i] - e.b[j][i]) <= 3,
                                            above |-> e.c = e.d ])
         [] OTHER -> {}
=============================================================================

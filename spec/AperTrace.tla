------------------------------ MODULE AperTrace ------------------------------
(* "rot": a rotating model's aperture dispersion (squares in 1/1000, ratio in *)
(* 1e-4); "disp": a dispersion-supported one (1e-5); "width": default aperture;      *)
(* "rel": two values (1e-6) related by rel, "eq" or "le".                      *)
EXTENDS Aper, TraceKit
TInit == [x |-> 0]
TStep(s, e) == s
Close(q, v, t) == Abs(q - v) * 1000 <= t * Max2(Abs(v), 100) + 1000
Near(q, v) == Abs(q - v) <= v \div 250 + 20
Ratio2(e) == (e.ratio * e.ratio) \div 100000                      \* in 1/1000
RotFails(e) ==
  LET c == TLCEval([hy |-> e.hy, hx |-> e.hx, py |-> (e.F4 * e.p + 4) \div 8, px |-> (2 * e.F4 * e.p * e.V + 8 * e.dx) \div (16 * e.dx), V |-> e.V, dx |-> e.dx, ox |-> e.ox, oy |-> e.oy, pc |-> e.pc, ps |-> e.ps, pd |-> e.pd,
            ic |-> e.ic, is |-> e.is, id |-> e.id, a |-> e.a, b |-> e.b, c |-> e.c, S |-> e.S, how |-> e.how, G |-> Weights(e.hy, e.how)])
      m == [w |-> e.w, vs |-> e.vs, R4 |-> e.R4]
      mean == IF RotSq(m) = 0 THEN 0 ELSE TLCEval(Mean2(c))
      ap == ApSq(c, m, mean)  rms == RmsSq(m)
  IN Failing([ aperture |-> Close(e.ap2 \div 10, ap \div 10, 4),
               intrinsic |-> Close(e.rms2 \div 10, rms \div 10, 2),
               ratio |-> rms > 0 => Close(Ratio2(e), Quot(ap, rms), 6) ])
DispFails(e) ==
  LET g == TLCEval([hy |-> e.n, hx |-> e.n, py |-> e.n + 1, px |-> e.n + 1, dx |-> e.dx, dy |-> e.dy, ox |-> e.ox, oy |-> e.oy, pc |-> e.pc, ps |-> e.ps, pd |-> e.pd, qq |-> e.qq,
            re |-> e.re, rm |-> e.rm, core |-> e.core, d1000 |-> e.d1000, n4 |-> e.n4, R |-> e.R, S |-> e.S, how |-> e.how, G |-> Weights(e.n, e.how)])
      ap == TLCEval(ApDisp(g)) in == TLCEval(InDisp(g))
  IN Failing([ aperture |-> Near(e.ap2, ap), intrinsic |-> Near(e.in2, in),
               ratio |-> Abs(Ratio2(e) - Fine(ap, in) \div 100) * 1000 <= 6 * Ratio2(e) + 1000 ])
WidthFails(e) ==
  LET w == Width2(e.re, e.F, e.qn, e.qd, e.pc, e.pd)
  IN Failing([ width |-> Abs(e.w2 - w) <= 1 + w \div 2000, pixels |-> e.np = e.n0 * (IF e.doubled THEN 2 ELSE 1) ])
RelFails(e) == Failing([ relation |-> IF e.rel = "eq" THEN Abs(e.x - e.y) <= e.tol ELSE e.x <= e.y ])
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE CASE e.k = "rot" -> RotFails(e) [] e.k = "disp" -> DispFails(e) [] e.k = "width" -> WidthFails(e) [] e.k = "rel" -> RelFails(e) [] OTHER -> {}
=============================================================================

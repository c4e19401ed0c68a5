------------------------------ MODULE ExtentTrace ----------------------------
(* "size": the size of the emission of a known source was measured.            *)
(* "shape": likewise for a symmetric profile that is no Gaussian.               *)
EXTENDS Extent, TraceKit
TInit == 0
TStep(s, e) == s
None == <<-990000, -990000>>
Cover(got, want, C) == Abs(got[1] - want) * 100 <= want * C.slack /\ Abs(got[2] - want) * 100 <= want * C.slack
MissingFails(o) ==
  Failing([ size |-> o.obs = -990000 /\ o.int = -990000 /\ o.d50 = -990000,
            errors |-> o.eobs = None /\ o.eint = None /\ o.ed50 = None ])
Derived(o, fw) ==
  [ intrinsic |-> LET w == Intrinsic(o.obs, fw) IN Abs(o.int * o.int - w * w) <= 12 * o.obs,
    full |-> Abs(o.d50 - Full(o.int)) <= 3 + o.d50 \div 1000 ]
Near(x, y, t) == Abs(x - y) <= t
SizeFails(C, o) ==
  LET M == Widest(C.n, C.p) sc == Scatter(C)
      inside == C.s * 100 <= 97 * M
      clear == sc * 5 < C.s - Disp(C.fw)
      hidden == sc * 5 < Disp(C.fw) - C.s
  IN Failing([
       observed |-> Len(C.lit) >= 4 => IF inside THEN Near(o.obs, C.s, 4 + C.s \div 400) ELSE o.obs * 100 >= 95 * M /\ o.obs * 1000 <= 1001 * M + 2000,
       window |-> (o.obs + o.eobs[2]) * 1000 <= 1001 * M + 4000,
       intrinsic |-> Derived(o, C.fw).intrinsic, full |-> Derived(o, C.fw).full,
       scatter |-> (C.mc /\ Len(C.lit) >= 4 /\ C.s * 10 >= 12 * C.p /\ inside /\ C.s * 10 + sc * 50 <= 10 * M) =>
           /\ Cover(o.eobs, sc, C)
           /\ clear => (Cover(o.eint, (sc * C.s) \div Max2(1, o.int), C) /\ Cover(o.ed50, Full((sc * C.s) \div Max2(1, o.int)), C))
           /\ hidden => o.eint = <<0, 0>> /\ o.ed50 = <<0, 0>> ])
(* the figure: everything marked is where it belongs                              *)
Marks(C, o) == <<C.m, 0, (C.n - 1) * C.p, C.m - (o.obs * 47) \div 40, C.m + (o.obs * 47) \div 40, C.m - o.d50 \div 2, C.m + o.d50 \div 2, C.m - C.fw \div 2, C.m + C.fw \div 2>>
PageFails(C, o) ==
  LET f == o.page want == SortSeq(Marks(C, o), LAMBDA x, y : x < y)
  IN Failing([
       marks |-> Len(f.v) = 9 /\ \A i \in 1..9 : Near(f.v[i], want[i], 8 + C.s \div 400),
       rows |-> f.all = [i \in 1..C.n |-> i - 1] /\ f.used = C.lit,
       values |-> \A i \in 1..Len(C.lit) : LET k == C.lit[i] t == T(k, C.p, C.m, C.s) IN Near(f.y[k + 1], ((Amp(C) \div 10) * (Bell(t) \div 3)) \div 1000, 6 + Amp(C) \div 500),
       errors |-> \A k \in 1..C.n : Near(f.e[k], RowErr(C, k - 1), 2 + RowErr(C, k - 1) \div 300),
       curve |-> \A k \in 1..C.n : LET t == T(k - 1, C.p, C.m, C.s) IN Near(f.fit[k], ((Amp(C) \div 10) * (Bell(t) \div 3)) \div 1000, 6 + Amp(C) \div 300),
       title |-> f.title = C.title ])
TFails(s, e) ==
  CASE e.k = "size" /\ e.raised # "" -> IF e.ready THEN {"raised"} ELSE (IF e.raised = "ValueError" THEN {} ELSE {"raised"})
    [] e.k = "size" /\ ~e.ready -> {"unprepared"}
    [] e.k = "size" -> LET C == e.C o == e.out miss == TooFew(C.lit, C.p, C.fw) IN
         (IF miss THEN MissingFails(o) ELSE SizeFails(C, o) \union (IF o.drawn /\ Len(C.lit) >= 4 /\ C.s * 100 <= 97 * Widest(C.n, C.p) THEN PageFails(C, o) ELSE {}))
         \union (IF o.same THEN {} ELSE {"input"}) \union (IF o.drawn = (e.draw /\ ~miss) THEN {} ELSE {"figure"})
    [] e.k = "shape" -> IF e.raised # "" THEN {"raised"} ELSE
         LET C == e.C o == e.out M == Widest(C.n, C.p) h == Share(C.v, C.p, o.obs) down == Share(C.v, C.p, (o.obs * 93) \div 100) up == Share(C.v, C.p, (o.obs * 107) \div 100) IN
         Failing([ best |-> o.obs > 0 /\ h + h \div 5000 + 1 >= down /\ (o.obs * 20 < 19 * M => h + h \div 5000 + 1 >= up),
                   window |-> o.obs * 1000 <= 1001 * M + 2000,
                   intrinsic |-> Derived(o, C.fw).intrinsic, full |-> Derived(o, C.fw).full ])
    [] OTHER -> {"unknown"}
=============================================================================

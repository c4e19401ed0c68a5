----------------------------- MODULE ParamsTrace ----------------------------
(* Each event acts on model e.id and records obs, the observable state of     *)
(* every live model afterwards; prof is what the components of the model      *)
(* acted upon report.  Values are integers in units of 1/1024.                *)
EXTENDS Params, TraceKit
TInit == [ms |-> <<>>]
Legal(s, e) == LegalTf(s.ms[e.id], e.tf)
Apply(s, e) ==
  CASE e.k = "new"     -> Append(s.ms, New(e.th, e.vary, e.nv, e.nd))
    [] e.k = "copy"    -> Append(s.ms, s.ms[e.id])
    [] e.k = "update"  -> [s.ms EXCEPT ![e.id] = Update(@, e.tf)]
    [] e.k \in {"make", "eval"} -> IF Legal(s, e) THEN [s.ms EXCEPT ![e.id] = Evaluate(@, e.tf)] ELSE s.ms
    [] e.k = "setup"   -> Append(s.ms, LET m == New(e.th, e.vary, e.nv, e.nd) IN Evaluate(m, ReadFree(m.th, m.vary)))
    [] e.k = "best"    -> [s.ms EXCEPT ![e.id] = SetBest(@, e.tf)]
    [] e.k = "refree"  -> [s.ms EXCEPT ![e.id] = Refree(@, e.vary)]
    [] e.k = "replace" -> [s.ms EXCEPT ![e.id] = Replace(@, e.th)]
    [] OTHER -> s.ms
TStep(s, e) == [ms |-> Apply(s, e)]
Same(m, o) == Failing([ vector   |-> o.th = m.th,
                        flags    |-> o.vary = m.vary,
                        count    |-> o.nfree = NFree(m.vary),
                        freevalues |-> o.free = ReadFree(m.th, m.vary),
                        best     |-> o.best = m.best,
                        redshift |-> m.made => o.z = Redshift(m.at),
                        offset   |-> m.made => o.shift = Offset(m.at) /\ o.row = Offset(m.at),
                        made     |-> o.made = m.made ])
\* a dispersion below the sampling floor (or negative) may be replaced in the
\* profile while the spectrum is computed; the vector itself keeps its value
Plain(m) == DispPart(m.th, m.nv, m.nd)[1] >= 40 * 1024
ProfOK(m, p) == Failing([ all   |-> p.all = m.th,
                          rotation   |-> p.vel = VelPart(m.th, m.nv),
                          dispersion |-> ~Plain(m) \/ p.disp = DispPart(m.th, m.nv, m.nd),
                          speed |-> p.half <= 20,
                          width |-> ~Plain(m) \/ p.sig <= 20 ])
Illegal(s, e) == e.k \in {"make", "eval"} /\ ~Legal(s, e)
TFails(s, e) ==
  LET ms == Apply(s, e)
      i == IF e.k \in {"new", "copy", "setup"} THEN Len(ms) ELSE e.id
  IN IF e.k = "split" THEN
       Failing([ all |-> e.all = e.th, rotation |-> e.vel = VelPart(e.th, e.nv), dispersion |-> e.disp = DispPart(e.th, e.nv, e.nd) ])
     ELSE IF e.k = "names" THEN
       Failing([ names |-> e.names = <<"V_a", "r_t", "sigma0", "m0_shift", "z">>, default |-> e.vary = <<TRUE, TRUE, TRUE, FALSE, FALSE>>, length |-> e.n = 5 ])
     ELSE IF Illegal(s, e) THEN
       (IF e.raised = "" THEN {"vector of wrong length accepted"} ELSE {})
       \cup UNION {Same(ms[j], e.obs[j]) : j \in 1..Len(ms)}
     ELSE IF e.raised # "" THEN {e.k \o " raised"}
     ELSE UNION {Same(ms[j], e.obs[j]) : j \in 1..Len(ms)}
          \cup (IF e.k \in {"new", "make", "eval", "setup", "best", "refree", "replace"} THEN ProfOK(ms[i], e.prof) ELSE {})
          \cup Failing([ inputkept |-> e.inputkept ])
=============================================================================

---------------------------- MODULE LinesTrace ----------------------------
(* "resolve2": a 2D spectrum resolves its line set (q, tables of the event);  *)
(* "resolve1": a 1D line-set model; "fit2", "fit1": the fitting objects;      *)
(* "again": resolving again after the group was renamed;                      *)
(* "prep": central wavelength and ranges after preparation;                   *)
(* "lookup": one table entry.                                                 *)
EXTENDS Lines, TraceKit
TInit == [q |-> <<>>]
\* tables used: standard, or the custom one recorded with the event
TabOf(e) == IF e.custom = "" THEN Std
            ELSE [groups |-> e.tab.groups, wave |-> e.tab.wave, ratio |-> e.tab.ratio]
TStep(s, e) == CASE e.k \in {"resolve2", "fit2"} /\ e.raised = "" -> [q |-> [e.q EXCEPT !.names = e.names, !.waves = e.waves, !.ratios = e.ratios]]
                 [] OTHER -> s
Resolved(e) == LET T == TabOf(e) IN
  IF ~LegalReq(e.q, T) THEN (IF e.raised = "" THEN {"untabulated line accepted"} ELSE {})
  ELSE IF e.raised # "" THEN {"resolution raised"}
  ELSE Failing([ names  |-> e.names = ResolvedNames(e.q, T),
                 waves  |-> e.waves = ResolvedWaves(e.q, T),
                 ratios |-> e.ratios = ResolvedRatios(e.q, T) ])
TFails(s, e) ==
  CASE e.k \in {"resolve2", "resolve1", "fit2"} -> Resolved(e)
    [] e.k = "again" -> IF e.raised # "" THEN {"again raised"}
                        ELSE Failing([ stable |-> e.names = s.q.names /\ e.waves = s.q.waves /\ e.ratios = s.q.ratios ])
    [] e.k = "fit1" ->
         LET T == Std
             legal == \A i \in 1..Len(e.groups) : e.groups[i] \in DOMAIN T.groups
         IN IF ~legal THEN (IF e.raised = "" THEN {"untabulated line accepted"} ELSE {})
            ELSE IF e.raised # "" THEN {"1D fit raised"}
            ELSE Failing([ names |-> e.names = [i \in 1..Len(e.groups) |-> T.groups[e.groups[i]]],
                           waves |-> e.waves = [i \in 1..Len(e.groups) |-> Map(T.groups[e.groups[i]], T.wave)] ])
    [] e.k = "prep" ->
         LET first == e.names[1]
             want(g, tab) == RangeOf(g, tab, first)
         IN IF want(e.gfull, FullRange) = <<>> \/ want(e.gline, LineRange) = <<>> \/ want(e.gmask, MaskRange) = <<>>
            THEN (IF e.raised = "" THEN {"untabulated range accepted"} ELSE {})
            ELSE IF e.raised # "" THEN {"preparation raised"}
            ELSE Failing([ full |-> e.full = want(e.gfull, FullRange),
                           line |-> e.line = want(e.gline, LineRange),
                           mask |-> e.mask = want(e.gmask, MaskRange),
                           lam0 |-> IF e.glam0 # 0 THEN e.lam0 = e.glam0 ELSE Abs(e.lam0 * e.zd - e.waves[1] * e.zn) <= e.zd,
                           lines |-> e.names = e.names2 /\ e.waves = e.waves2 ])
    [] e.k = "lookup" ->
         LET tab == CASE e.table = "full" -> FullRange [] e.table = "line" -> LineRange
                      [] e.table = "mask" -> MaskRange [] e.table = "trim1d" -> Trim1D
         IN IF e.name \in DOMAIN tab THEN (IF e.raised # "" THEN {"lookup raised"} ELSE Failing([entry |-> e.out = tab[e.name]]))
            ELSE IF e.raised = "" THEN {"untabulated name accepted"} ELSE {}
    [] OTHER -> {"unknown event"}
=============================================================================

------------------------------ MODULE TrimTrace ------------------------------
(* Conformance of recorded trims.                                            *)
(* "new"  : dim, base (arrays of the untrimmed spectrum, as built)           *)
(* "trim" : request q, raised (exception name or ""), and the projections    *)
(*          after the call: orig (object q.o) and out (the returned object). *)
EXTENDS Trim, TraceKit

TInit == [dim |-> 0, base |-> <<>>, objs |-> <<>>]

TStep(s, e) ==
  IF e.k = "new" THEN [dim |-> e.dim, base |-> e.base, objs |-> [x \in {1} |-> [i \in 1..Len(e.base.wave) |-> i]]]
  ELSE IF e.raised # "" THEN s
  ELSE [s EXCEPT !.objs = Trimmed(s.objs, s.base.wave, s.dim, e.q)]

(* what an object holding the channels cols must look like                   *)
Row(rows, cols) == [i \in 1..Len(rows) |-> Pick(rows[i], cols)]
Same(s, p, cols) ==
  LET b == s.base
      e == Len(cols) = 0
  IN [ wave |-> IF e THEN p.none.wave ELSE ~p.none.wave /\ p.wave = Pick(b.wave, cols),
       obs  |-> e \/ p.obs = Pick(b.wave, cols),
       rest |-> e \/ p.rest = Pick(b.wave, cols),
       flux |-> IF e THEN p.none.flux ELSE ~p.none.flux /\ p.flux = Row(b.flux, cols),
       err  |-> IF e THEN p.none.err ELSE ~p.none.err /\ p.err = Row(b.err, cols),
       mask |-> IF e THEN p.none.mask ELSE ~p.none.mask /\ p.mask = Row(b.mask, cols),
       weight |-> s.dim = 1 \/ (IF e THEN p.none.weight ELSE ~p.none.weight /\ p.weight = Row(b.weight, cols)),
       incl |-> s.dim = 1 \/ e \/ p.incl = Row(b.incl, cols),
       cont |-> s.dim = 1 \/ e \/ p.cont = Row(b.cont, cols) ]

TFails(s, e) ==
  IF e.k = "new" THEN {}
  ELSE LET q == e.q
           legal == Legal(s.dim, q)
           t == Trimmed(s.objs, s.base.wave, s.dim, q)
           tgt == IF s.dim = 2 /\ q.inplace THEN q.o ELSE q.res
       IN IF ~legal THEN
            (IF e.raised = "" THEN {"illegal request accepted"} ELSE {})
            \cup {"original." \o c : c \in Failing(Same(s, e.orig, s.objs[q.o]))}
          ELSE IF e.raised # "" THEN {"legal request raised"}
          ELSE {"result." \o c : c \in Failing(Same(s, e.out, t[tgt]))}
               \cup {"original." \o c : c \in Failing(Same(s, e.orig, t[q.o]))}
=============================================================================

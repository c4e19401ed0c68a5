----------------------------- MODULE WorldsTrace ----------------------------
(* Events: "slot" adds or reconfigures a galaxy or instrument; "new" a model; *)
(* "fresh" the digest obtained in a world of its own for a key; "make",       *)
(* "update", "copy" act on model e.m.  e.side: digests of all galaxies,       *)
(* instruments and stored spectra of models afterwards.                       *)
EXTENDS Worlds, TraceKit
TInit == [w |-> [gal |-> <<>>, ins |-> <<>>, mod |-> <<>>], memo |-> <<>>, side |-> [gal |-> <<>>, ins |-> <<>>, mod |-> <<>>]]
Grow(w, f, slot, cfg) == IF f = "gal" THEN (IF slot > Len(w.gal) THEN [w EXCEPT !.gal = Append(@, cfg)] ELSE Configure(w, f, slot, cfg))
                         ELSE IF slot > Len(w.ins) THEN [w EXCEPT !.ins = Append(@, cfg)] ELSE Configure(w, f, slot, cfg)
World(s, e) == CASE e.k = "slot"   -> Grow(s.w, e.f, e.slot, e.cfg)
                 [] e.k = "new"    -> [s.w EXCEPT !.mod = Append(@, Blank(e.opt))]
                 [] e.k = "make"   -> Make(s.w, e.m, e.g, e.i, e.kind, e.theta)
                 [] e.k = "update" -> Update(s.w, e.m, e.theta)
                 [] e.k = "copy"   -> [s.w EXCEPT !.mod = Append(@, s.w.mod[e.m])]
                 [] OTHER -> s.w
FreshKey(e) == <<<<e.gcfg, e.icfg, e.kind>>, e.opt, e.theta>>
TStep(s, e) == [ w |-> World(s, e),
                 memo |-> IF e.k = "fresh" THEN Append(s.memo, <<FreshKey(e), e.out>>) ELSE s.memo,
                 side |-> IF e.k = "fresh" THEN s.side ELSE e.side ]
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
Known(s, key) == {i \in 1..Len(s.memo) : s.memo[i][1] = key}
Kept(a, b, except) == Len(b) >= Len(a) /\ \A i \in 1..Len(a) : i \in except \/ a[i] = b[i]
TFails(s, e) ==
  IF e.raised # "" THEN {e.k \o " raised"}
  ELSE IF e.k = "fresh" THEN {}
  ELSE Failing([ galaxies    |-> Kept(s.side.gal, e.side.gal, IF e.k = "slot" /\ e.f = "gal" THEN {e.slot} ELSE {}),
                 instruments |-> Kept(s.side.ins, e.side.ins, IF e.k = "slot" /\ e.f = "ins" THEN {e.slot} ELSE {}),
                 models      |-> Kept(s.side.mod, e.side.mod, IF e.k \in {"make", "update"} THEN {e.m} ELSE {}) ])
       \cup (IF e.k \notin {"make", "update"} THEN {}
             ELSE LET key == Key(World(s, e).mod[e.m])
                      ix == Known(s, key)
                  IN IF ix = {} THEN {"no reference"}
                     ELSE Failing([ history |-> \A i \in ix : Near(e.out, s.memo[i][2]) ]))
       \cup (IF e.k = "copy" THEN Failing([ copied |-> e.side.mod[Len(e.side.mod)] = e.side.mod[e.m] ]) ELSE {})
=============================================================================

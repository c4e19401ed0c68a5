---------------------------- MODULE LowSnrTrace ----------------------------
(* "rows" : low-S/N identification on an image                               *)
(* "trimmed" : the identification recorded after the complete preparation    *)
EXTENDS LowSnr, TraceKit
TInit == <<>>
TStep(s, e) == s
TFails(s, e) ==
  CASE e.k = "rows" ->
        IF e.raised # "" THEN {"rows raised"} ELSE
        LET D == Dropped(Len(e.flux), HighRows(e.flux, e.err, e.calc, e.n, e.d)) IN
        Failing([dropped |-> e.dropped = SortedSeq(D),
                 mask |-> e.out = RowMask(e.mask, D),
                 quality |-> e.qual = e.mask])
    [] e.k = "prep" ->
        \* after preparation: identification on the trimmed image and the fit mask
        IF e.raised # "" THEN {"prep raised"} ELSE
        LET D0 == Dropped(Len(e.flux), HighRows(e.flux, e.err, e.calc, e.n, e.d))
            r0 == e.first
            nt == Len(e.omask)
            cut(x) == [i \in 1..nt |-> x[r0 + i - 1]]
            D1 == Dropped(nt, HighRows(cut(e.flux), cut(e.err), cut(e.calc), e.n, e.d))
        IN Failing([prepDropped |-> e.dropped = SortedSeq(D1),
                    prepMask |-> e.omask = cut(RowMask(e.qual, D0)),
                    prepLowMask |-> e.lowmask = cut(RowMask(e.qual, D0))])
    [] OTHER -> {"unknown event"}
=============================================================================

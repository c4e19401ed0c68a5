--------------------------- MODULE SkyLinesTrace ---------------------------
(* "sky"    : whole mask computation on an image                             *)
(* "runs"   : 1D classification, plain or as contiguous groups               *)
(* "lookup" : threshold of a band                                            *)
(* "refuse" : requests that must be refused                                  *)
(* "prep"   : the sky mask as found after complete preparation               *)
EXTENDS SkyLines, TraceKit
TInit == <<>>
TStep(s, e) == s

Err1Reaches(x, t) == x * t.d >= t.n           \* channel errors given directly
Sky1(e) == {c \in 1..Len(e.err) : Err1Reaches(e.err[c], Thresh(e.cut, e.med))}
AsSet(s) == {<<s[i][1], s[i][Len(s[i])]>> : i \in 1..Len(s)}
Consecutive(g) == \A i \in 1..(Len(g)-1) : g[i+1] = g[i] + 1
GroupsOK(gs, S) == /\ \A i \in 1..Len(gs) : Len(gs[i]) > 0 /\ Consecutive(gs[i])
                   /\ AsSet(gs) = Runs(S)
                   /\ Len(gs) = Cardinality(Runs(S))
                   /\ \A i \in 1..(Len(gs)-1) : gs[i][1] < gs[i+1][1]

\* median over channels of the quadrature errors (given as exact roots q)
MedianTwice(q) == LET n == Len(q)
                      s == SortSeq(q, LAMBDA a, b : a < b)
                  IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]

TFails(s, e) ==
  CASE e.k = "sky" ->
        IF e.raised # "" THEN {"sky raised"} ELSE
        LET S == Sky(e.err, e.mask, Thresh(e.cut, e.med)) IN
        Failing([sky |-> e.sky = SortedSeq(S),
                 clear |-> e.clear = SortedSeq(Clear(Len(e.err[1]), S)),
                 mask |-> e.out = SkyMask(e.mask, S),
                 quality |-> e.qual = e.mask])
    [] e.k = "runs" ->
        IF e.raised # "" THEN {"runs raised"} ELSE
        LET S == Sky1(e)  C == Clear(Len(e.err), S) IN
        IF e.full THEN Failing([sky |-> e.sky = SortedSeq(S), clear |-> e.clear = SortedSeq(C)])
        ELSE Failing([skyGroups |-> GroupsOK(e.skyg, S), clearGroups |-> GroupsOK(e.clearg, C)])
    [] e.k = "groups" ->
        IF e.raised # "" THEN {"groups raised"} ELSE
        Failing([groups |-> GroupsOK(e.out, Range(e.inds))])
    [] e.k = "lookup" ->
        LET want == IF e.preset # 0 THEN e.preset
                    ELSE IF e.custom # 0 THEN e.custom
                    ELSE IF e.band \in DOMAIN SkyCut THEN SkyCut[e.band] ELSE -1
        IN IF want = -1 THEN (IF e.raised = "" THEN {"unknown band accepted"} ELSE {})
           ELSE IF e.raised # "" THEN {"lookup raised"}
           ELSE Failing([threshold |-> e.out = want, units |-> e.units = "timesMedianErr"])
    [] e.k = "refuse" -> IF e.raised = "" THEN {"accepted: " \o e.what} ELSE {}
    [] e.k = "prep" ->
        IF e.raised # "" THEN {"prep raised"} ELSE
        LET t == [n |-> e.cut[1] * MedianTwice(e.full), d |-> e.cut[2] * 2]
            S == {c \in 1..Len(e.q) : e.q[c] * t.d >= t.n}
        IN Failing([prepSky |-> e.sky = SortedSeq(S),
                    prepClear |-> e.clear = SortedSeq(Clear(Len(e.q), S)),
                    prepMaskCols |-> e.zerocols = SortedSeq(S),
                    noSkyInFit |-> e.skyfit = 0])
    [] OTHER -> {"unknown event"}
=============================================================================

---------------------------- MODULE SpatialTrace ----------------------------
(* "strim": one spatial trim of an image whose object sits at mu (separation  *)
(* sep), nominal position ypos; rows of every array identified by content.    *)
(* "close": end of a family of trims.  The centring fit is nondeterministic   *)
(* in the specification (its optimiser may settle early): every trim must be  *)
(* consistent with SOME centre, and at most one in six of the well-posed      *)
(* images may be centred elsewhere than on its object.                        *)
EXTENDS Spatial, TraceKit
TInit == [ok |-> 0, off |-> 0]
Exact(e) == e.good /\ ~TooFar(e.mu, e.ypos)
CentreOK(e) == LET l == IF e.dither THEN e.l ELSE 0
                   m0 == e.m0 + l
               IN /\ m0 = Centre(e.mu, e.ypos)
                  /\ Exact(e) => /\ Abs(e.shift + 1000 * m0 - e.mu) <= 40
                                 /\ e.dither => (e.l = Left(m0, Cut(e.mu, e.sep)) /\ e.r = Right(e.n, m0, Cut(e.mu, e.sep)))
TStep(s, e) ==
  IF e.k # "strim" \/ e.raised # "" \/ ~e.good THEN s
  ELSE IF CentreOK(e) THEN [s EXCEPT !.ok = @ + 1] ELSE [s EXCEPT !.off = @ + 1]
TFails(st0, e) ==
  IF e.k = "close" THEN IF 6 * st0.off > st0.ok + st0.off THEN {"objects not centred"} ELSE {} ELSE
  IF e.raised # "" THEN {"trim raised"} ELSE
  LET l == IF e.dither THEN e.l ELSE 0
      r == IF e.dither THEN e.r ELSE e.n - 1
      want == Rows(l, r)
      nt == r - l
      cut(x) == [i \in 1..nt |-> x[l + i]]
      D == Dropped(nt, HighRows(cut(e.flux), cut(e.err), cut(e.sky), e.cn, e.cd))
      m0 == e.m0 + l
  IN IF l < 0 \/ r > e.n - 1 \/ r <= l THEN {"bounds outside the image"} ELSE
     Failing([
      bounds   |-> e.l = l /\ e.r = r,
      centre   |-> e.fullm0 = m0,
      near     |-> Abs(1000 * m0 - e.ypos) <= 2500,
      far      |-> (e.good /\ TooFar(e.mu, e.ypos)) => m0 = Round(e.ypos),
      symmetric |-> (e.dither /\ e.l > 0 /\ e.r < e.n - 1) => m0 - e.l = e.r - m0,
      arrays   |-> \A a \in DOMAIN e.rows : e.rows[a] = want,
      profile  |-> e.prof = want \/ ~e.hasprof,
      ypos     |-> e.newypos = e.ypos - 1000 * l,
      shift    |-> Abs(e.shift) <= 501,
      limits   |-> e.lims = <<0, nt>> /\ e.nspatial = nt,
      dropped  |-> e.dropped = SortedSeq({d - 1 : d \in D}) ])
=============================================================================

---------------------------- MODULE BadDataTrace ----------------------------
EXTENDS BadData, Tables, TraceKit
TInit == [mask |-> <<>>, flux |-> <<>>, err |-> <<>>, w |-> <<>>]

Flat(rows) == [i \in 1..(Len(rows) * Len(rows[1])) |->
                 rows[((i-1) \div Len(rows[1])) + 1][((i-1) % Len(rows[1])) + 1]]
RowWise(F(_), n) == [r \in 1..n |-> F(r)]

(* ---- 1D histories: state carries the mask the spectrum should hold ------ *)
TStep(s, e) ==
  CASE e.k = "new" -> [mask |-> e.mask, flux |-> e.flux, err |-> e.err, w |-> e.w]
    [] e.k = "missing" -> [s EXCEPT !.mask = Missing(s.flux, s.err, IF e.usew THEN s.w ELSE <<>>, s.mask, ~e.nonfinite)]
    [] e.k = "edges" -> [s EXCEPT !.mask = Edges(s.mask, e.num)]
    [] OTHER -> s

(* ---- 2D preparation: masks after the continuum step --------------------- *)
Mask1(e) == Edges(Missing(e.flux1, e.err1, <<>>, e.mask1, TRUE), 10)
Want2(e) ==
  LET m == [r \in 1..Len(e.flux) |-> Missing(e.flux[r], e.err[r], IF e.w = <<>> THEN <<>> ELSE e.w[r], e.mask[r], FALSE)]
  IN IF e.cont THEN FromOneD(m, Mask1(e)) ELSE m
KeepCols(e) == SelectSeq([i \in 1..Len(e.wave) |-> i],
                 LAMBDA i : e.wave[i] >= e.n * e.range[1] /\ e.wave[i] <= e.n * e.range[2])
Cut(rows, ix) == [r \in 1..Len(rows) |-> Pick(rows[r], ix)]

TFails(s, e) ==
  LET t == TStep(s, e) IN
  CASE e.k = "new" -> {}
    [] e.k \in {"missing", "edges"} ->
         IF e.raised # "" THEN {e.k \o " raised"}
         ELSE Failing([mask |-> e.out = t.mask,
                       data |-> e.flux = s.flux /\ e.err = s.err])
    [] e.k = "oned" ->
         IF e.raised # "" THEN {"oned raised"}
         ELSE Failing([columns |-> e.out = FromOneD(e.mask2, e.mask1)])
    [] e.k = "fill" ->
         IF e.raised # "" THEN {"fill raised"}
         ELSE Failing([fill |-> e.out = Fill(e.x, e.mask, e.fill, e.zero, e.all)])
    [] e.k = "prep" ->
         IF e.raised # "" THEN {"prep raised"}
         ELSE LET ix == KeepCols(e)
                  m == Want2(e)
                  fl == [r \in 1..Len(m) |-> Fill(e.flux[r], m[r], -99, FALSE, FALSE)]
                  er == [r \in 1..Len(m) |-> Fill(e.err[r], m[r], -99, TRUE, FALSE)]
              IN Failing([preparedMask |-> e.omask = Cut(m, ix),
                          preparedFlux |-> e.oflux = Cut(fl, ix),
                          preparedErr  |-> e.oerr = Cut(er, ix)])
    [] e.k = "fullprep" ->
         \* after the complete preparation no valid sample is bad
         IF e.raised # "" THEN {"fullprep raised"}
         ELSE LET m == Want2(e)
                  valid == {<<r, c>> \in (1..Len(e.omask)) \X (1..Len(e.owave)) : e.omask[r][c] = 1}
                  col(c) == CHOOSE i \in 1..Len(e.wave) : e.wave[i] = e.owave[c]
              IN Failing([badNeverValid |-> \A p \in valid : m[e.rows[p[1]]][col(p[2])] = 1,
                          finite |-> e.finite])
    [] OTHER -> {"unknown event"}
=============================================================================

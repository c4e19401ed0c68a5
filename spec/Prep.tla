-------------------------------- MODULE Prep --------------------------------
(* Preparing a 2D spectrum for fitting, without continuum: the composition of  *)
(* the stages specified in Trim, BadData, SkyLines, LowSnr.  All values are    *)
(* integers; wavelengths in units of 0.001 A; ranges are rest ranges and the   *)
(* redshift factor is zn/zd.  Rows kept by the spatial stage are l..r-1.       *)
EXTENDS LowSnr, TLC
BD == INSTANCE BadData
SL == INSTANCE SkyLines

FillValue == -99
InRest(w, q, rng) == q.zd * w >= q.zn * rng[1] /\ q.zd * w <= q.zn * rng[2]
Cols(q) == SelectSeq([i \in 1..Len(q.wave) |-> i],
             LAMBDA c : InRest(q.wave[c], q, q.full) /\ InRest(q.wave[c], q, q.line))

\* stage 1: missing data masked and filled, on the whole image
Mask0(q) == TLCEval([r \in 1..Len(q.flux) |-> BD!Missing(q.flux[r], q.err[r], q.weight[r], q.mask[r], FALSE)])
Flux0(q, m) == [r \in 1..Len(m) |-> BD!Fill(q.flux[r], m[r], FillValue, FALSE, FALSE)]
Err0(q, m) == [r \in 1..Len(m) |-> BD!Fill(q.err[r], m[r], FillValue, TRUE, FALSE)]

\* squared quadrature error of each channel, and its median (odd number of channels)
ChanSq(err, mask) == [c \in 1..Len(err[1]) |-> SL!SumSq(err, mask, c)]
MedianOf(s) == LET t == SortSeq(s, LAMBDA a, b : a < b) IN t[(Len(t) + 1) \div 2]

CutCols(x, cols) == [r \in 1..Len(x) |-> Pick(x[r], cols)]
CutRows(x, l, r) == [i \in 1..(r - l) |-> x[l + i]]

\* everything after the wavelength stages, before the rows are cut
Stage2(q) ==
  LET m == Mask0(q)  e0 == Err0(q, m)  f0 == Flux0(q, m)
      cols == Cols(q)
      med2 == MedianOf(ChanSq(e0, m))
      qual == CutCols(m, cols)  err == CutCols(e0, cols)  flux == CutCols(f0, cols)
      sq == ChanSq(err, qual)
      sky == {c \in 1..Len(cols) : sq[c] * q.cd * q.cd >= q.cn * q.cn * med2}
      msky == SL!SkyMask(qual, sky)
      D == Dropped(Len(flux), HighRows(flux, err, msky, q.sn, q.sd))
      low == RowMask(qual, D)
  IN [cols |-> cols, flux |-> flux, err |-> err, qual |-> qual, sky |-> sky, msky |-> msky, low |-> low, dropped |-> D,
      weight |-> CutCols(q.weight, cols),
      mask |-> [r \in 1..Len(qual) |-> [c \in 1..Len(cols) |-> qual[r][c] * low[r][c]]]]

\* and after
Final(q, s, l, r) ==
  LET f == CutRows(s.flux, l, r)  e == CutRows(s.err, l, r)  k == CutRows(s.msky, l, r)
  IN [flux |-> f, err |-> e, qual |-> CutRows(s.qual, l, r), msky |-> k, low |-> CutRows(s.low, l, r),
      mask |-> CutRows(s.mask, l, r), weight |-> CutRows(s.weight, l, r),
      wave |-> Pick(q.wave, s.cols), sky |-> s.sky,
      dropped |-> Dropped(r - l, HighRows(f, e, k, q.sn, q.sd))]
=============================================================================

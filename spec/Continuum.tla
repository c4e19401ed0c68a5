------------------------------ MODULE Continuum ------------------------------
(* Continuum subtraction.  Channels are numbered; x is the channel number      *)
(* relative to a reference.  Flux values are integers, errors are 0, 1, 2 or   *)
(* large; weights 1/err^2 in units of 1/4.                                     *)
EXTENDS Prep

W(e) == IF e = 1 THEN 4 ELSE IF e = 2 THEN 1 ELSE 0

\* continuum channels left and right of the line (positions in the full image)
LeftC(q) == {c \in 1..Len(q.wave) : q.zd * q.wave[c] >= q.zn * q.full[1] /\ q.zd * q.wave[c] < q.zn * q.lmask[1]}
RightC(q) == {c \in 1..Len(q.wave) : q.zd * q.wave[c] <= q.zn * q.full[2] /\ q.zd * q.wave[c] > q.zn * q.lmask[2]}
FullC(q) == SelectSeq([i \in 1..Len(q.wave) |-> i], LAMBDA c : InRest(q.wave[c], q, q.full))

\* mask of the 1D spectrum: bad data, zero errors, edges
Mask1(q) == LET m == TLCEval(BD!Missing(q.flux1, q.err1, <<>>, q.mask1, TRUE)) IN TLCEval(BD!Edges(m, 10))
MaskC(q) == LET m1 == Mask1(q)  m0 == TLCEval(Mask0(q)) IN TLCEval(BD!FromOneD(m0, m1))
Med2(q) == LET m == MaskC(q)  e == TLCEval(Err0(q, m)) IN TLCEval(MedianOf(TLCEval(ChanSq(e, m))))
\* usable 1D samples: unmasked and not sky
Usable1(q) == LET m == Mask1(q)  md == Med2(q)
              IN TLCEval({c \in 1..Len(q.wave) : m[c] = 1 /\ q.err1[c] * q.err1[c] * q.cd * q.cd < q.cn * q.cn * md})

\* weighted sums over a set of channels
RECURSIVE Sm(_, _, _, _, _)
Sm(S, y, e, x0, p) ==
  IF S = {} THEN 0
  ELSE LET c == CHOOSE c \in S : TRUE
           xv == c - x0
           t == CASE p = 0 -> 1 [] p = 1 -> xv [] p = 2 -> xv * xv [] p = 3 -> y[c] [] p = 4 -> xv * y[c]
       IN W(e[c]) * t + Sm(S \ {c}, y, e, x0, p)

SlopeNum(S, y, e, x0) == Sm(S, y, e, x0, 0) * Sm(S, y, e, x0, 4) - Sm(S, y, e, x0, 1) * Sm(S, y, e, x0, 3)
SlopeDen(S, y, e, x0) == Sm(S, y, e, x0, 0) * Sm(S, y, e, x0, 2) - Sm(S, y, e, x0, 1) * Sm(S, y, e, x0, 1)

OneSided(q, U) == U \cap LeftC(q) = {} \/ U \cap RightC(q) = {}
\* slope per channel in units of 1/1000
SlopeMilli(q, U, x0) ==
  LET S == U \cap (LeftC(q) \cup RightC(q))
      d == SlopeDen(S, q.flux1, q.err1, x0)
  IN IF OneSided(q, U) \/ d = 0 THEN 0
     ELSE FloorDiv(1000 * SlopeNum(S, q.flux1, q.err1, x0), d)
\* row intercept (at x0) given the slope, in units of 1/1000
Intercept(S, y, e, x0, slope) ==
  LET s == Sm(S, y, e, x0, 0) IN FloorDiv(1000 * Sm(S, y, e, x0, 3) - slope * Sm(S, y, e, x0, 1), s)
=============================================================================

------------------------------- MODULE Line1D --------------------------------
(* One-dimensional spectra of line groups on a polynomial continuum.          *)
(* Wavelengths in units of 0.001 Angstrom, redshifts k/64, widths c/q, fluxes *)
(* in 1e-18, flux densities in 1e-21.                                         *)
EXTENDS Fixed, Tables
Line(r, ratio, k, q) == LET c == (r * (64 + k)) \div 64 IN [at |-> c, wide |-> c \div q, ratio |-> ratio]
GroupLines(g, k, q) == [i \in 1..Len(Groups[g]) |-> Line(RestWave[Groups[g][i]], Ratio[Groups[g][i]], k, q)]
(* 30000 exp(-u^2/2), u in 1e-4                                               *)
Bell(u) == IF Abs(u) > 45000 THEN 0 ELSE Pow2(-((((u * u) \div 20000) * 14427) \div 10000))
Peak(l, f) == LET p == (f * 398942) \div l.wide IN (p * (l.ratio \div 100)) \div 10000
ShapeAt(l, w) == LET d == w - l.at IN IF Abs(d) > 5 * l.wide THEN 0 ELSE Bell((Abs(d) * 10000) \div l.wide)
LineAt(l, f, w) == LET p == Peak(l, Abs(f)) b == ShapeAt(l, w) v == (p * (b \div 3)) \div 10000 IN IF f < 0 THEN -v ELSE v
SetAt(ls, f, w) == SumSeq([i \in 1..Len(ls) |-> LineAt(ls[i], f, w)])
SetsAt(sets, fluxes, w) == SumSeq([j \in 1..Len(sets) |-> SetAt(sets[j], fluxes[j], w)])
(* coefficients: c0 in 1e-18, each further one 1e-4 smaller                   *)
ContAt(c, w) == LET W == w \div 1000
                    t0 == c[1] * 1000
                    t1 == IF Len(c) < 2 THEN 0 ELSE FloorDiv(c[2] * (w \div 10), 1000)
                    t2 == IF Len(c) < 3 THEN 0 ELSE FloorDiv(FloorDiv(c[3] * (w \div 10), 1000) * W, 10000)
                    t3 == IF Len(c) < 4 THEN 0 ELSE FloorDiv(FloorDiv(FloorDiv(c[4] * (w \div 10), 1000) * W, 10000) * W, 10000)
                IN t0 + t1 + t2 + t3
SpectrumAt(sets, fluxes, c, w) == SetsAt(sets, fluxes, w) + ContAt(c, w)
(* how far a computed value may be off                                        *)
Slack(sets, fluxes, c, w) ==
  20 + SumSeq([j \in 1..Len(sets) |-> SumSeq([i \in 1..Len(sets[j]) |-> Peak(sets[j][i], Abs(fluxes[j])) \div 3000 + LineAt(sets[j][i], Abs(fluxes[j]), w) \div 200])]) + (IF Len(c) > 1 THEN 10 ELSE 0)
(* what line groups carry in all: flux times ratios                           *)
RECURSIVE Ratios(_)
Ratios(ls) == IF ls = <<>> THEN 0 ELSE Head(ls).ratio + Ratios(Tail(ls))
(* the residual of the samples that are kept                                  *)
Kept(mask) == {i \in 1..Len(mask) : mask[i] = 4}
=============================================================================

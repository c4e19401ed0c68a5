-------------------------------- MODULE Plot --------------------------------
(* What the figures of a 2D fit show.                                        *)
EXTENDS Fixed, TLC
(* --- parameters: indices of the free ones among all five                   *)
FreeIdx(vary) == SortedSeq({i \in 1..Len(vary) : vary[i]})
(* columns of the posterior shown: free parameters, V at R_E and at r_2.2    *)
Shown(vary) == Len(FreeIdx(vary)) + 2
Derived(tex) == IF tex THEN <<"$V(R_E)$", "$V_{2.2}$", "$\\sigma(R_E)$", "$\\sigma_{2.2}$">> ELSE <<"VRE", "V22", "sigmaRE", "sigma22">>
Names(vary, nice, tex) == Pick(nice, FreeIdx(vary)) \o Derived(tex)
(* column of the dispersion that is quoted: sigma0 if free, else at R_E      *)
SigmaCol(vary) == IF vary[3] THEN CHOOSE i \in 1..Len(FreeIdx(vary)) : FreeIdx(vary)[i] = 3 ELSE Len(FreeIdx(vary)) + 3
VreCol(vary) == Len(FreeIdx(vary)) + 1
(* --- order statistics: q in 1/100000, linear between neighbours            *)
Ordered(s) == SortSeq(s, LAMBDA a, b : a < b)
Percentile(s, q) == LET p == (Len(s) - 1) * q i == p \div 100000 f == p % 100000
                        a == s[i + 1] d == s[Min2(i + 2, Len(s))] - a
                    IN a + ((f \div 100) * d) \div 1000 + ((f % 100) * (d \div 100)) \div 1000
Cuts == <<2275, 15865, 84135, 97725>>
(* --- masked rows or columns: maximal groups of neighbours                  *)
(* bounding lines in half pixels, none at the border of the n pixels          *)
Bounds2(S, n) == {2 * p[1] - 1 : p \in {r \in Runs(S) : r[1] # 0}} \cup {2 * p[2] + 1 : p \in {r \in Runs(S) : r[2] # n - 1}}
(* hatched boxes <<x0, x1, y0, y1>> in half pixels                           *)
RowBoxes(S, n, nw) == {<<-1, 2 * nw - 1, 2 * p[1] - 1, 2 * p[2] + 1>> : p \in Runs(S)}
ColBoxes(S, n, nw) == {<<2 * p[1] - 1, 2 * p[2] + 1, -1, 2 * n - 1>> : p \in Runs(S)}
(* --- extent of the galaxy along the slit as seen: 1/1000 pixel             *)
(* re, fwhm and pix in 1/10000 arcsec, cos = pc/pd                           *)
Seen(re, fwhm) == Root(re * re + (fwhm \div 2) * (fwhm \div 2))
Reach(re, fwhm, pc, pd, pix) == (((Seen(re, fwhm) * Abs(pc)) \div pd) * 1000) \div pix
=============================================================================

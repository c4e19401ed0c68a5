-------------------------------- MODULE Extent ------------------------------
(* The size of the emission along the slit: rows are n pixels of p, the       *)
(* instrument's seeing has a full width of fw; lengths in 1/10000 arcsec.     *)
EXTENDS Fixed, TLC
(* full width over dispersion of a Gaussian: 2.35482                          *)
Full(s) == ((s * 11774) \div 5000)
Disp(f) == ((f * 5000) \div 11774)
Widest(n, p) == Disp((n - 1) * p)
(* too few rows to tell: three numbers are fitted                             *)
TooFew(L, p, fw) == Len(L) < 3 \/ Len(L) * p * 10 < 8 * fw
(* Gaussian at t/1000 dispersions                                             *)
Bell(t) == IF Abs(t) > 5000 THEN 0 ELSE Pow2(-((((t * t) \div 100) * 7213) \div 10000))
T(k, p, m, s) == ((k * p - m) * 1000) \div Max2(1, s)
(* intrinsic size: seeing removed in quadrature, none if seeing is larger      *)
Intrinsic(obs, fw) == LET q == Disp(fw) IN IF obs <= q THEN 0 ELSE Root(obs * obs - q * q)
(* sums over the wavelengths that are no sky                                   *)
Clear(C) == {i \in 1..Len(C.w) : i \notin {C.sky[j] : j \in 1..Len(C.sky)}}
RECURSIVE SumOver(_, _)
SumOver(v, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : TRUE IN v[i] + SumOver(v, D \ {i})
Amp(C) == (C.a * SumOver(C.w, Clear(C))) \div 10
(* error of the sum in row k                                                    *)
RowErr(C, k) == (C.err[k + 1] * Root(10000 * Cardinality(Clear(C)))) \div 100
(* expected scatter of the fitted size for a Gaussian of size s at m: its       *)
(* information less what position and height take                               *)
Scatter(C) ==
  LET L == C.lit
      e == TLCEval([i \in 1..Len(L) |-> RowErr(C, L[i])])
      least == SetMin({e[i] : i \in 1..Len(L)})
      t == TLCEval([i \in 1..Len(L) |-> T(L[i], C.p, C.m, C.s)])
      a == TLCEval([i \in 1..Len(L) |-> ((Bell(t[i]) \div 10) * least) \div e[i]])
      b == TLCEval([i \in 1..Len(L) |-> FloorDiv(a[i] * t[i], 1000)])
      c == TLCEval([i \in 1..Len(L) |-> FloorDiv(b[i] * t[i], 1000)])
      dot(x, y) == SumSeq([i \in 1..Len(L) |-> x[i] * y[i]])
      ra == Root(dot(a, a)) rb == Root(dot(b, b)) rc == Root(dot(c, c))
      cor(v, r, s) == FloorDiv(v, Max2(1, (r * s) \div 1000)) * 10
      ab == cor(dot(a, b), ra, rb) ac == cor(dot(a, c), ra, rc) bc == cor(dot(b, c), rb, rc)
      lost == (((ac * ac) + (bc * bc)) - (2 * (FloorDiv(ac * bc, 10000) * ab))) \div Max2(1, 10000 - (ab * ab) \div 10000)
      keep == Root(Max2(1, 10000 - lost))
  IN (((((C.s * least) \div Max2(1, Amp(C) \div 10)) * 3000) \div Max2(1, rc)) * 10) \div Max2(1, keep)
Unsure(C) == LET L == C.lit IN Len(L) < 4
(* quality of size s for profile v (symmetric about the middle, equal errors):   *)
(* the share of the profile that a Gaussian of that size can explain             *)
Share(v, p, s) ==
  LET n == Len(v) g == TLCEval([k \in 1..n |-> Bell(T(k - 1, p, ((n - 1) * p) \div 2, s)) \div 10])
  IN (SumSeq([k \in 1..n |-> v[k] * g[k]]) * 30) \div Max2(1, Root(SumSeq([k \in 1..n |-> g[k] * g[k]])))
=============================================================================

-------------------------------- MODULE Fixed --------------------------------
(* Roots, powers and logarithms of fixed-point numbers, to about 1e-4.        *)
EXTENDS Common
(* largest r with r*r <= a                                                    *)
RECURSIVE RootBetween(_, _, _)
RootBetween(a, lo, hi) == IF hi - lo <= 1 THEN lo
                          ELSE LET m == (lo + hi) \div 2 IN IF m * m <= a THEN RootBetween(a, m, hi) ELSE RootBetween(a, lo, m)
Root(a) == RootBetween(a, 0, 46341)
One == 30000
RECURSIVE Exp_(_, _, _), Shift(_, _), Norm(_, _), Bits(_, _, _, _)
Exp_(t, k, r) == IF k = 0 THEN r ELSE Exp_(t, k - 1, One + (t * r) \div (k * One))
Shift(v, n) == IF n = 0 THEN v ELSE IF n > 0 THEN Shift(2 * v, n - 1) ELSE Shift(v \div 2, n + 1)
(* 2^(e/10000) in units of 1/One (e below 160000)                             *)
Pow2(e) == LET n == FloorDiv(e, 10000) f == e - 10000 * n
           IN IF n < -20 THEN 0 ELSE Shift(Exp_((f * 20794) \div 10000, 7, One), n)
(* 10000 log2(x/s), x > 0                                                     *)
Norm(m, n) == IF m >= 40000 THEN Norm(m \div 2, n + 1) ELSE IF m < 20000 THEN Norm(2 * m, n - 1) ELSE <<m, n>>
Bits(m, k, w, acc) == IF k = 0 THEN acc
                      ELSE LET q == (m * m) \div 20000
                           IN IF q >= 40000 THEN Bits(q \div 2, k - 1, w * 2, acc * 2 + 1) ELSE Bits(q, k - 1, w * 2, acc * 2)
Lg(x) == LET p == Norm(x, 0) IN 10000 * p[2] + (10000 * Bits(p[1], 13, 1, 0) + 5000) \div 8192
Log2(x, s) == Lg(x) - Lg(s)
(* (x/s)^(p/q) in 1/One                                                       *)
Power(x, s, p, q) == IF x <= 0 THEN 0 ELSE LET e == Log2(x, s) * p IN Pow2(FloorDiv(e, q))
=============================================================================

-------------------------------- MODULE Post --------------------------------
(* Summaries of a sampled posterior: percentiles, peaks of the smoothed       *)
(* distribution, sign fractions, derived columns, linked parameters.          *)
(* A column is a sequence of integers; results are in sixteenths of its unit. *)
EXTENDS Fixed, TLC
ToSorted(x) == SortSeq(x, <)
(* percentile p/1000 by linear interpolation between the order statistics     *)
Perc(s, p) == LET t == p * (Len(s) - 1)  k == t \div 100000  f == (t % 100000) \div 10
                  a == s[k + 1]  b == IF k + 2 <= Len(s) THEN s[k + 2] ELSE a
              IN 16 * a + (16 * (b - a) * f) \div 10000
P1 == <<15865, 84135>>
P2 == <<2275, 97725>>
RECURSIVE Total(_, _)
Total(f, i) == IF i = 0 THEN 0 ELSE f[i] + Total(f, i - 1)
Sum(f) == Total(f, Len(f))
Centre(x) == (Sum(x) + Len(x) \div 2) \div Len(x)
Dev(x) == LET m == Centre(x) IN [i \in 1..Len(x) |-> x[i] - m]
Prod(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]])
(* squared smoothing lengths: variance times n^(-2/(d+4)) (Scott)             *)
Shrink(v, n, d) == ((v \div 3000) * Power(n, 1, -2, d + 4)) \div 10
Width(x, d) == LET u == TLCEval(Dev(x)) n == Len(x)
                   v == 256 * (Prod(u, u) \div (n - 1))
               IN Root(Shrink(v, n, d))
(* distance of the samples from the point b, in thousandths of h              *)
Dist(x, h, b) == [i \in 1..Len(x) |-> FloorDiv((16 * x[i] - b) * 1000, h)]
Wt(q) == IF q > 36000 THEN 0 ELSE Pow2(-((7213 * q) \div 1000))
Near(t) == IF Abs(t) > 6000 THEN 0 ELSE Wt((t * t) \div 1000)
Density(x, h, b) == LET t == TLCEval(Dist(x, h, b)) IN Sum([i \in 1..Len(x) |-> Near(t[i])])
(* b is a local maximum of the smoothed distribution                          *)
IsPeak(x, h, b) ==
  LET t == TLCEval(Dist(x, h, b))
      w == TLCEval([i \in 1..Len(x) |-> Near(t[i])])
      all == Sum(w)
      tilt == Sum([i \in 1..Len(x) |-> (w[i] * t[i]) \div 20])
      bend == Sum([i \in 1..Len(x) |-> (w[i] \div 10) * (1000 - ((Min2(Abs(t[i]), 6000) * Min2(Abs(t[i]), 6000)) \div 1000))])
  IN /\ Abs(tilt) <= all
     /\ bend >= -((all \div 10) * 30)
(* densities on an even grid rise, then fall                                  *)
Grid(x, h) == LET s == TLCEval(ToSorted(x)) a == 16 * s[1] b == 16 * s[Len(x)]
              IN [k \in 1..13 |-> Density(x, h, a + ((b - a) \div 12) * (k - 1))]
OneHill(g) == \E k \in 1..Len(g) : (\A i \in 1..(k - 1) : g[i] <= g[i + 1]) /\ (\A i \in k..(Len(g) - 1) : g[i] >= g[i + 1])
Best(g) == CHOOSE v \in Range(g) : \A u \in Range(g) : u <= v
Highest(x, h, b) == LET g == TLCEval(Grid(x, h)) IN OneHill(g) => Density(x, h, b) * 50 >= Best(g) * 49
(* two parameters together                                                    *)
Corr(x, y) == LET u == TLCEval(Dev(x)) v == TLCEval(Dev(y))
              IN FloorDiv(FloorDiv(Prod(u, v), Root(Prod(u, u))) * 1000, Root(Prod(v, v)))
JointW(t1, t2, r) == IF Abs(t1) > 14000 \/ Abs(t2) > 14000 THEN 0
                     ELSE LET a == (t1 * t1) \div 1000 + (t2 * t2) \div 1000 - FloorDiv(FloorDiv(t1 * t2, 1000) * r, 500)
                              d == (1000000 - r * r) \div 1000
                          IN Wt((Max2(a, 0) * 1000) \div d)
IsJointPeak(x, y, bx, by) ==
  LET hx == TLCEval(Width(x, 2)) hy == TLCEval(Width(y, 2)) r == TLCEval(Corr(x, y))
      t1 == TLCEval(Dist(x, hx, bx)) t2 == TLCEval(Dist(y, hy, by))
      w == TLCEval([i \in 1..Len(x) |-> JointW(t1[i], t2[i], r)])
      all == Sum(w)
      T1 == Sum([i \in 1..Len(x) |-> ((w[i] \div 10) * t1[i]) \div 2])
      T2 == Sum([i \in 1..Len(x) |-> ((w[i] \div 10) * t2[i]) \div 2])
  IN all > 0 /\ Abs(T1) <= all * 2 /\ Abs(T2) <= all * 2
Constant(x) == \A i \in 1..Len(x) : x[i] = x[1]
(* percentage (in 1/100) of samples whose sign is opposite to that of best    *)
Opposite(x, zero, best) == LET opp == Cardinality({i \in 1..Len(x) : IF best > 16 * zero THEN x[i] < zero ELSE x[i] > zero})
                           IN (10000 * opp) \div Len(x)
(* ---- the analysis as a state machine ------------------------------------- *)
Derived == <<"V_RE", "V_22", "sigma_RE", "sigma_22">>
AbsSeq(x) == [i \in 1..Len(x) |-> Abs(x[i])]
(* columns the analysis works on: the sampled ones, once, with only the       *)
(* dispersion made positive, and only if asked to                             *)
Prepared(s) == IF s.abs /\ s.disp > 0 THEN [s.cols EXCEPT ![s.disp] = AbsSeq(@)] ELSE s.cols
(* position of parameter i among the free ones, 0 if it is fixed              *)
Place(vary, i) == IF vary[i] THEN Cardinality({j \in 1..i : vary[j]}) ELSE 0
FreeNames(names, vary) == LET ix == SortedSeq({i \in 1..Len(names) : vary[i]}) IN Pick(names, ix)
Linked(links) == UNION {Range(links[i]) : i \in 1..Len(links)}
(* the linked set that decides parameter k: the last one naming it            *)
Decider(links, k) == SetMax({i \in 1..Len(links) : k \in Range(links[i])})
=============================================================================

------------------------------- MODULE Weights -------------------------------
(* Row weights of the fit.  Rows have signal s, quadrature error q (integer), *)
(* dropped rows D.  Measured weights W are in units of 1/U.                   *)
EXTENDS Common

\* unnormalised weight of a row as a rational <<num, den>>
Edge(s, q) == <<q, Abs(s)>>          \* 1/(|s|/q)

SumW(W) == SumSeq(W)
Normalised(W, U, D) == IF D = 1..Len(W) THEN \A i \in 1..Len(W) : W[i] = 0
                       ELSE Abs(SumW(W) - U) <= Len(W)
DroppedZero(W, D) == \A i \in D : W[i] = 0
NonNegative(W) == \A i \in 1..Len(W) : W[i] >= 0
\* weights of kept rows are in the ratio of the inverse S/N
EdgeLaw(W, s, q, D) ==
  \A i, j \in (1..Len(W)) \ D :
     Abs(W[i] * Abs(s[i]) * q[j] - W[j] * Abs(s[j]) * q[i]) <= Abs(s[i]) * q[j] + Abs(s[j]) * q[i]
\* weights of kept rows follow the profile G
ProfileLaw(W, U, G, D) ==
  LET tot == SumSeq([i \in 1..Len(G) |-> IF i \in D THEN 0 ELSE G[i]]) IN
  \A i \in (1..Len(W)) \ D : Abs(W[i] * tot - G[i] * U) <= (U \div 500) * (tot \div Len(G)) + tot
EqualLaw(W, U) == \A i \in 1..Len(W) : Abs(W[i] * Len(W) - U) <= Len(W)
=============================================================================

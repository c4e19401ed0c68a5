------------------------------- MODULE Common -------------------------------
(* Small operators shared by the area specifications.                       *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == {s[i] : i \in DOMAIN s}

(* ascending sequence of the elements of a set of integers                   *)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == SetMin(S) IN <<m>> \o SortedSeq(S \ {m})

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* pick the entries of s at the (1-based) positions listed in ix             *)
Pick(s, ix) == [i \in 1..Len(ix) |-> s[ix[i]]]

(* floor division for possibly negative numerators, positive denominators    *)
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)

(* set of names of the failing clauses of a record of booleans               *)
Failing(rec) == {c \in DOMAIN rec : ~rec[c]}

(* maximal runs of consecutive integers in the set S: a set of <<lo, hi>>    *)
Runs(S) == {<<a, b>> \in S \X S :
              /\ a <= b
              /\ (a-1) \notin S /\ (b+1) \notin S
              /\ \A x \in a..b : x \in S}
=============================================================================

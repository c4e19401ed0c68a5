------------------------------ MODULE MCParams ------------------------------
(* All vectors over {0,1,2}, all flag patterns and every interleaving of      *)
(* updating, evaluating, freeing/fixing, replacing and storing the best fit.  *)
EXTENDS Params, TLC
N == 4
Vals == 0..2
VARIABLES m, steps, last
vars == <<m, steps, last>>
Vec == [1..N -> Vals]
Flags == [1..N -> BOOLEAN]
Tf(v) == [1..NFree(v) -> Vals]
Init == /\ \E v \in Flags : m = New(<<0, 1, 2, 0>>, v, 1, 1)
        /\ steps = 0
        /\ last = [op |-> "new", prev |-> m, tf |-> <<>>]
Do(op, tf, n) == m' = n /\ last' = [op |-> op, prev |-> m, tf |-> tf]
Next == /\ steps < 2
        /\ steps' = steps + 1
        /\ \/ \E tf \in Tf(m.vary) : Do("update", tf, Update(m, tf))
           \/ \E tf \in Tf(m.vary) : Do("eval", tf, Evaluate(m, tf))
           \/ \E tf \in Tf(m.vary) : Do("best", tf, SetBest(m, tf))
           \/ \E v \in Flags : Do("refree", <<>>, Refree(m, v))
           \/ \E t \in {<<1, 1, 1, 1>>, <<2, 0, 1, 2>>} : Do("replace", <<>>, Replace(m, t))
Spec == Init /\ [][Next]_vars
Took == last.op \in {"update", "eval", "best"}
ReadBack == Took => ReadFree(m.th, m.vary) = last.tf
Fixed == Took => FixedKept(last.prev.th, m.th, m.vary)
FreeingKeeps == last.op = "refree" => m.th = last.prev.th
Evaluated == last.op \in {"eval", "best"} => m.at = m.th
BestStays == (last.op # "best") => m.best = last.prev.best
SplitCovers == VelPart(m.th, m.nv) \o DispPart(m.th, m.nv, m.nd) \o <<Offset(m.th), Redshift(m.th)>> = m.th
FullVector == (\A i \in 1..N : m.vary[i]) /\ Took => m.th = last.tf
=============================================================================

------------------------------- MODULE MCTrim -------------------------------
(* Exhaustive design check of trimming on a small grid, and generator of the *)
(* histories replayed into the code.                                         *)
EXTENDS Trim, TLC, Json

CONSTANTS NW, MaxOps, Emit
Wave == [i \in 1..NW |-> 1000 * (10 * i)]        \* 10, 20, ... Angstrom
Edges == {5000 * k : k \in 1..(2*NW+1)}          \* on and between samples

VARIABLES dim, objs, ops, last
vars == <<dim, objs, ops, last>>

Init == /\ dim \in {1, 2}
        /\ objs = [x \in {1} |-> [i \in 1..NW |-> i]]
        /\ ops = <<>>
        /\ last = <<>>

Requests(o) ==
  LET r == Len(ops) + 2
      mk(k, a, b, inp) == [o |-> o, res |-> r, inplace |-> inp, line |-> "",
                           n |-> 2, d |-> 1,
                           obs |-> IF k \in {"obs", "both"} THEN <<a, b>> ELSE <<>>,
                           rest |-> IF k \in {"rest", "both"} THEN <<a \div 2, b \div 2>> ELSE <<>>]
  IN {mk(k, a, b, inp) : k \in {"obs", "rest"}, a \in Edges, b \in Edges, inp \in BOOLEAN}
     \cup {mk("both", 10000, 20000, FALSE), mk("none", 10000, 20000, FALSE)}

Next == /\ Len(ops) < MaxOps
        /\ \E o \in DOMAIN objs : objs[o] # <<>> /\ \E q \in Requests(o) :
             /\ objs' = Trimmed(objs, Wave, dim, q)
             /\ ops' = Append(ops, q)
             /\ last' = objs
        /\ UNCHANGED dim
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------- *)
Increasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
OrderKept == \A o \in DOMAIN objs : Increasing(objs[o])
(* nothing outside the last range survives, nothing inside is lost           *)
Exact == Len(ops) = 0 \/
  LET q == ops[Len(ops)]
      tgt == IF dim = 2 /\ q.inplace THEN q.o ELSE q.res
  IN Legal(dim, q) =>
       /\ \A c \in Range(objs[tgt]) : InRange(Wave[c], dim, q) /\ c \in Range(last[q.o])
       /\ \A c \in Range(last[q.o]) : InRange(Wave[c], dim, q) => c \in Range(objs[tgt])
(* a copying trim does not touch the original                                *)
Isolated == Len(ops) = 0 \/
  LET q == ops[Len(ops)] IN
  (~(dim = 2 /\ q.inplace) \/ ~Legal(dim, q)) => objs[q.o] = last[q.o]
(* contiguity: trims of a contiguous block stay contiguous                   *)
Contiguous == \A o \in DOMAIN objs :
  objs[o] = <<>> \/ Len(objs[o]) = objs[o][Len(objs[o])] - objs[o][1] + 1
(* successive trims = one trim to the intersection                            *)
Inter(q1, q2) == LET lo(q) == IF Given(q.obs) THEN q.obs[1] ELSE 2 * q.rest[1]
                     hi(q) == IF Given(q.obs) THEN q.obs[2] ELSE 2 * q.rest[2]
                 IN [q1 EXCEPT !.obs = <<Max2(lo(q1), lo(q2)), Min2(hi(q1), hi(q2))>>, !.rest = <<>>]
All == [i \in 1..NW |-> i]
Composes == (Len(ops) = 2 /\ Legal(dim, ops[1]) /\ Legal(dim, ops[2])
             /\ ~(Given(ops[1].obs) /\ Given(ops[1].rest)) /\ ~(Given(ops[2].obs) /\ Given(ops[2].rest))
             /\ ops[1].line = "" /\ ops[2].line = "") =>
   LET q1 == ops[1]  q2 == ops[2]
       t1 == IF dim = 2 /\ q1.inplace THEN q1.o ELSE q1.res
       t2 == IF dim = 2 /\ q2.inplace THEN q2.o ELSE q2.res
   IN q2.o = t1 => objs[t2] = TrimCols(Wave, All, 2, Inter(q1, q2))

EmitCase == (Emit /\ Len(ops) = MaxOps) => PrintT(<<"CASE", ToJson([dim |-> dim, ops |-> ops])>>)
=============================================================================

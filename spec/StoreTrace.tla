----------------------------- MODULE StoreTrace -----------------------------
(* Every operation carries what all fits hold afterwards, what the files       *)
(* contain, and possibly a value of the posterior.                            *)
EXTENDS Store, TraceKit
TInit == [fits |-> <<>>, chains |-> <<>>, best |-> None, chain |-> 0, hash |-> <<0, 0>>, posts |-> {}, sums |-> {}]
Written(e) == (IF e.op \in {"save", "drop"} THEN {1} ELSE {}) \cup (IF e.op = "run" THEN {2} ELSE {})
Key(s, e) == <<Proj(s.fits[e.o], Posterior), e.theta>>
SumKey(s, e) == LET f == Fits(s, e)[e.o] IN <<Proj(f, Summary), Chains(s, e)[e.o]>>
TStep(s, e) ==
  IF e.k = "post" THEN [s EXCEPT !.posts = @ \cup {<<Key(s, e), e.value>>}]
  ELSE LET t == [Apply(s, e) EXCEPT !.hash = [i \in 1..2 |-> IF i \in Written(e) THEN e.hash[i] ELSE @[i]]]
       IN IF e.op \in {"analyse", "reanalyse"} /\ e.raised = "" THEN [t EXCEPT !.sums = @ \cup {<<SumKey(s, e), e.new["results"]>>}] ELSE t
OpFails(s, e) ==
  LET f == Fits(s, e) c == Chains(s, e)
  IN Failing([ (* the outcome *)
        outcome |-> (e.raised = "") = Possible(s, e),
        acting |-> e.op \in {"new", "drop"} \/ e.fits[e.o] = f[e.o],
        others |-> Len(e.fits) = Len(f) /\ \A i \in 1..Len(f) : i # e.o => e.fits[i] = f[i],
        chains |-> e.chains = c,
        files |-> \A i \in 1..2 : i \in Written(e) \/ e.hash[i] = s.hash[i],
        written |-> (e.op \in {"save", "run"} /\ e.raised = "") => \A i \in Written(e) : e.hash[i] # 0,
        told |-> e.op = "run" => e.stored,
        summary |-> (e.op \in {"analyse", "reanalyse"} /\ e.raised = "") => \A p \in s.sums : p[1] = SumKey(s, e) => p[2] = e.new["results"] ])
PostFails(s, e) == Failing([ posterior |-> \A p \in s.posts : p[1] = Key(s, e) => Abs(p[2] - e.value) <= 3,
                             untouched |-> e.fits = s.fits /\ e.chains = s.chains,
                             files |-> e.hash = s.hash ])
TFails(s, e) == IF e.k = "post" THEN (IF e.raised # "" THEN {"posterior raised"} ELSE PostFails(s, e)) ELSE OpFails(s, e)
=============================================================================

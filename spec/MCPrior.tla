------------------------------ MODULE MCPrior -------------------------------
(* Three parameters, every pattern of free ones, every bound pair and every   *)
(* point of a small grid including undefined and infinite coordinates; an     *)
(* evaluator whose model remembers the last point it was set to.              *)
EXTENDS Prior, TLC
VARIABLES vary, bounds, th, tf, out
vars == <<vary, bounds, th, tf, out>>
B == {<<0, 2>>, <<1, 1>>, <<NInf, 1>>, <<1, PInf>>}
X == {0, 1, 2, 3, Nan, NInf}
Flags == [1..3 -> BOOLEAN]
(* any function of the full vector serves as likelihood                       *)
Like(v) == -(v[1] + 5 * v[2] + 25 * v[3])
Undef(v) == v[2] = 2
Init == /\ vary \in Flags /\ bounds \in [1..3 -> B] /\ th = <<1, 1, 1>> /\ tf = <<>> /\ out = 0
Eval(t) == /\ tf' = t
           /\ LET v == Fill(th, vary, t)
              IN /\ out' = Posterior(t, vary, bounds, Like(v), Undef(v))
                 /\ th' = IF InPrior(t, vary, bounds) THEN v ELSE th
           /\ UNCHANGED <<vary, bounds>>
Next == out = 0 /\ \E t \in [1..NFree(vary) -> X] : Eval(t)
Spec == Init /\ [][Next]_vars
Fixed == FixedKept(<<1, 1, 1>>, th, vary)
(* independent of the vector the model happened to hold                        *)
HistoryFree == out = 0 \/ \A h \in {<<1, 1, 1>>, <<0, 2, 0>>, th} :
   LET v == [i \in 1..3 |-> IF vary[i] THEN Fill(h, vary, tf)[i] ELSE 1]
   IN out = Posterior(tf, vary, bounds, Like(v), Undef(v))
Gated == out # 0 => ((LogPrior(tf, vary, bounds) = NInf) => out = NInf)
FixedIrrelevant == out = 0 \/ \A b \in B : LET bb == [i \in 1..3 |-> IF vary[i] THEN bounds[i] ELSE b]
                                           IN LogPrior(tf, vary, bb) = LogPrior(tf, vary, bounds)
StartsInside == \A w \in [1..NFree(vary) -> 0..2] : StartOK(w, w, vary, bounds) => LogPrior(w, vary, bounds) = 0
=============================================================================

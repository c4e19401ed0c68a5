------------------------------- MODULE MCStore ------------------------------
(* Two fits, one saved fit and one saved chain; aspects abbreviated to three. *)
EXTENDS Store
VARIABLES s, last, n
vars == <<s, last, n>>
Blank(v) == [a \in Aspects |-> IF a = "galaxy" THEN v ELSE 0]
Ev(op, o) == [op |-> op, o |-> o, aspect |-> "", new |-> Blank(0), raised |-> "", chain |-> 0]
Init == s = [fits |-> <<Blank(1), Blank(2)>>, chains |-> <<0, 0>>, best |-> None, chain |-> 0] /\ last = [op |-> "new", o |-> 1] /\ n = 0
Res(o) == 10 * s.chains[o] + s.fits[o].links + 1
Do(e) == /\ n < 6 /\ n' = n + 1
         /\ LET r == [e EXCEPT !.raised = IF Possible(s, e) THEN "" ELSE "missing"] IN s' = Apply(s, r) /\ last' = [op |-> e.op, o |-> e.o]
Next == \E o \in 1..2 :
          \/ \E a \in {"links", "settings"}, v \in 0..1 : Do([Ev("change", o) EXCEPT !.aspect = a, !.new = [@ EXCEPT ![a] = v]])
          \/ Do([Ev("run", o) EXCEPT !.chain = o])
          \/ (s.chains[o] # 0 /\ Do([Ev("analyse", o) EXCEPT !.new = [@ EXCEPT !["results"] = Res(o)]]))
          \/ Do(Ev("save", o)) \/ Do(Ev("load", o)) \/ Do(Ev("loadchain", o)) \/ Do(Ev("drop", o))
Spec == Init /\ [][Next]_vars
(* only the acting fit changes; saving changes none                           *)
OthersKept == [][\A o \in 1..2 : o # last'.o => s'.fits[o] = s.fits[o] /\ s'.chains[o] = s.chains[o]]_vars
SavingKeeps == [][last'.op = "save" => s'.fits = s.fits /\ s'.chains = s.chains /\ s'.best = s.fits[last'.o]]_vars
LoadingKeeps == [][last'.op \in {"load", "loadchain"} => s'.best = s.best /\ s'.chain = s.chain]_vars
RoundTrip == [][(last'.op = "load" /\ s.best # None) => s'.fits[last'.o] = s.best]_vars
(* the saved fit never follows later changes of the one that was saved        *)
Frozen == [][last'.op \notin {"save", "drop"} => s'.best = s.best]_vars
(* an analysis is that of the fit's own chain and links                       *)
Missing == [][(last'.op = "load" /\ s.best = None) => s' = s]_vars
Sane == s.best = None \/ s.best.galaxy \in {1, 2}
=============================================================================

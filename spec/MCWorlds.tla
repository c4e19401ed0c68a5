------------------------------ MODULE MCWorlds ------------------------------
(* The protocol by which models keep out of each other's way although the     *)
(* instrument carries one shared blurring stamp and the profiles one shared   *)
(* parameter vector: every computation installs its own stamp and parameters  *)
(* first, grids are private and rebuilt when offset or redshift change.       *)
(* Checked: whatever the interleaving, the result is a function of Key.       *)
EXTENDS Worlds, TLC
CONSTANT Polite          \* TRUE: the protocol; FALSE: stamps are left alone
VARIABLES w, stamp, prof, grid, out, who, n
vars == <<w, stamp, prof, grid, out, who, n>>
Ms == {1, 2}
Cfg == {1, 2}
Th == {<<1, 1>>, <<2, 1>>, <<1, 2>>}        \* <<speed, offset>>
Init == /\ w = [gal |-> <<1, 2>>, ins |-> <<1>>, mod |-> <<Blank(0), Blank(1)>>]
        /\ stamp = 0 /\ prof = <<0, 0>> /\ grid = <<<<>>, <<>>>> /\ out = <<>> /\ who = 0 /\ n = 0
(* the stamp depends on the instrument and on the sub-pixels (options)        *)
Stamp(m, s) == s[2] + 10 * w.mod[m].opt
Compute(m, s, th, g) == /\ prof' = th
                        /\ stamp' = IF Polite THEN Stamp(m, s) ELSE IF stamp = 0 THEN Stamp(m, s) ELSE stamp
                        /\ out' = <<g, stamp', prof'>>
                        /\ who' = m
DoMake(m, g, k, th) == LET s == SetUp(w, g, 1, k) IN
   /\ w' = Make(w, m, g, 1, k, th)
   /\ grid' = [grid EXCEPT ![m] = <<s, th[2]>>]
   /\ Compute(m, s, th, <<s, th[2]>>)
DoUpdate(m, th) == LET s == w.mod[m].setup IN
   /\ s # <<>>
   /\ w' = Update(w, m, th)
   /\ grid' = IF grid[m][2] # th[2] THEN [grid EXCEPT ![m] = <<s, th[2]>>] ELSE grid
   /\ Compute(m, s, th, grid'[m])
Change(f, slot, c) == w' = Configure(w, f, slot, c) /\ who' = 0 /\ UNCHANGED <<stamp, prof, grid, out>>
Next == /\ n < 4 /\ n' = n + 1
        /\ \/ \E m \in Ms, g \in 1..2, k \in {"slit", "cube"}, th \in Th : DoMake(m, g, k, th)
           \/ \E m \in Ms, th \in Th : DoUpdate(m, th)
           \/ \E c \in Cfg : Change("gal", 1, c) \/ Change("ins", 1, c)
Spec == Init /\ [][Next]_vars
(* freshly built, in a world of its own                                        *)
Fresh(x) == <<<<x.setup, x.theta[2]>>, x.setup[2] + 10 * x.opt, x.theta>>
HistoryFree == who # 0 => out = Fresh(w.mod[who])
OthersKept == [][\A m \in Ms : (who' # m) => (w'.mod[m] = w.mod[m])]_vars
=============================================================================

------------------------------- MODULE MCMcmc --------------------------------
EXTENDS Mcmc
CONSTANTS MaxSteps, Floor, Times
VARIABLES m, n, hist, k, prior           \* runs left, steps of the current run, step ids, chains before the run
vars == <<m, n, hist, k, prior>>
Confs == [nBurn : {0, 1, 2}, nSteps : 1..MaxSteps, minAF : {-1, 1}, maxAF : {3}, nEff : {-1, 1}, all : BOOLEAN, over : BOOLEAN, file : BOOLEAN]
Res == [af : {1, 2, 3}, acor : {-1, -2, 0, 4, 7}]
Init == m = Idle /\ n = Times /\ hist = <<>> /\ k = 0 /\ prior = Empty
Start == m.phase = "idle" /\ n > 0 /\ \E c \in Confs : m' = Begin(m, c) /\ n' = n - 1 /\ hist' = <<>> /\ k' = k /\ prior' = (IF c.file THEN m.file ELSE Empty)
DoBurn == CanBurn(m) /\ m' = Burn(m, k) /\ k' = k + 1 /\ UNCHANGED <<n, hist, prior>>
DoSample == CanSample(m) /\ \E r \in Res : m' = Sample(m, k, r, Floor) /\ k' = k + 1 /\ hist' = Append(hist, r) /\ UNCHANGED <<n, prior>>
Crash == m.phase = "run" /\ ~Done(m) /\ m' = Close(m) /\ UNCHANGED <<n, hist, k, prior>>
Finish == m.phase = "run" /\ Done(m) /\ m' = Close(m) /\ UNCHANGED <<n, hist, k, prior>>
Next == Start \/ DoBurn \/ DoSample \/ Crash \/ Finish
Spec == Init /\ [][Next]_vars
View == <<m, n, hist, prior>>
Ran == m.c.over \/ "nSteps" \in DOMAIN m.c
Live == m.phase = "run"
Stop(i) == Stops(m.c, i - 1, hist[i], Floor)
(* production is exactly the old chain (unless overwritten) and this run's steps *)
Honest == Live => /\ Len(hist) = m.np /\ m.np <= m.c.nSteps /\ m.nb <= m.c.nBurn
                  /\ (m.np > 0 => m.nb = m.c.nBurn)
                  /\ \A i \in 1..(m.np - 1) : ~Stop(i)
                  /\ m.conv = (m.np > 0 /\ Stop(m.np))
Stored == Live => LET old == IF m.c.over THEN 0 ELSE Len(prior.prod) ob == IF m.c.over THEN 0 ELSE Len(prior.burn)
                  IN /\ Len(m.burn) = ob + m.nb /\ (\A i \in 1..ob : m.burn[i] = prior.burn[i])
                     /\ (m.nb = m.c.nBurn => Len(m.prod) = old + m.np)
                     /\ (m.nb < m.c.nBurn => m.prod = prior.prod)
                     /\ (\A i \in 1..old : m.prod[i] = prior.prod[i])
                     /\ (\A i \in 1..Len(m.burn), j \in 1..Len(m.prod) : m.burn[i] # m.prod[j])
Reported == (Live /\ Done(m)) =>
               /\ (Caution(m) => ~m.conv /\ m.np = m.c.nSteps) /\ (m.conv => m.np > Floor /\ ~m.c.all /\ Bounded(m.c))
               /\ (~m.conv => m.np = m.c.nSteps)
               /\ (Bounded(m.c) /\ ~m.c.all => (Caution(m) = (Early(m) = -1)))
=============================================================================

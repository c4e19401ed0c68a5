------------------------------- MODULE MCPrep -------------------------------
(* (1) Stage design on every small image: the masks of the prepared spectrum   *)
(* are nested and never valid on bad data, and                                 *)
(* (2) the life cycle: prepare / change attributes / prepare again / attach    *)
(* the galaxy / set or clear its angle.                                        *)
EXTENDS Prep, TLC
VARIABLES q, prepared, result, delt, holder, steps
vars == <<q, prepared, result, delt, holder, steps>>
F == {0, 7, 999999}
Init == /\ \E a, b, x, y \in F, e1, e2 \in {0, 1, 5}, m1 \in {0, 1}, w1 \in {0, 1} :
             q = [wave |-> <<1000, 1001, 1002, 1003, 1004>>, zn |-> 2, zd |-> 1, full |-> <<500, 502>>, line |-> <<500, 501>>,
                  flux |-> <<<<a, b, 1, 1, 1>>, <<x, y, 2, 2, 2>>, <<9, 9, 9, 3, 3>>>>,
                  err |-> <<<<e1, 1, 1, 1, 1>>, <<1, e2, 1, 1, 1>>, <<1, 1, 1, 1, 999999>>>>,
                  mask |-> <<<<1, 1, 1, 1, 1>>, <<m1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1>>>>,
                  weight |-> <<<<1, 1, 1, 1, 1>>, <<1, w1, 1, 1, 1>>, <<1, 1, 1, 1, 1>>>>,
                  cn |-> 2, cd |-> 1, sn |-> 2, sd |-> 1]
        /\ prepared = FALSE /\ result = <<>> /\ delt \in {"unset", "given"} /\ holder = FALSE /\ steps = 0
Prepare == /\ steps' = steps + 1 /\ holder' = TRUE /\ UNCHANGED q
           /\ IF prepared THEN UNCHANGED <<prepared, result, delt>>
              ELSE /\ prepared' = TRUE /\ result' = Stage2(q)
                   /\ delt' = IF delt = "unset" THEN "computed" ELSE delt
Change == steps' = steps + 1 /\ q' = [q EXCEPT !.cn = 3 - @ + 2, !.line = <<500, 502>>] /\ UNCHANGED <<prepared, result, delt, holder>>
Detach == steps' = steps + 1 /\ holder' = FALSE /\ UNCHANGED <<q, prepared, result, delt>>
Next == steps < 3 /\ (Prepare \/ Change \/ Detach)
Spec == Init /\ [][Next]_vars
Once == [][prepared => result' = result]_vars
AngleKept == [][(delt # "unset") => (delt' = delt)]_vars
Holds == [][(steps' = steps + 1 /\ holder /\ ~holder') => (result' = result)]_vars
Complete == prepared => delt # "unset"
Nested == prepared =>
   \A r \in 1..3 : \A c \in 1..Len(result.cols) :
      /\ result.mask[r][c] <= result.qual[r][c]
      /\ result.msky[r][c] <= result.qual[r][c]
      /\ (c \in result.sky) => result.msky[r][c] = 0
      /\ (r \in result.dropped) => result.mask[r][c] = 0
      /\ LET i == result.cols[c] IN (~BD!Finite(q.flux[r][i]) \/ ~BD!Finite(q.err[r][i]) \/ q.weight[r][i] = 0) => result.mask[r][c] = 0
      /\ result.mask[r][c] = 1 => result.flux[r][c] # 999999
=============================================================================

------------------------------- MODULE MCFit1D ------------------------------
(* One or two groups, results of any sign, files, repeated fits.              *)
EXTENDS Fit1D
VARIABLES best, rows, file, calls, errs, corr, phase, n
vars == <<best, rows, file, calls, errs, corr, phase, n>>
C == [names |-> <<"Halpha", "NII">>, order |-> 0, zk |-> 0, del |-> 20000]
P == {<<z, v, f, g, 1>> : z \in {0, 3000}, v \in {-4, 3, 10}, f \in {-2, 5}, g \in {-1, 4}}
R == 5
Init == best = <<0, 3, 5, 4, 1>> /\ rows = <<>> /\ file = <<>> /\ calls = <<>> /\ errs = <<>> /\ corr = <<>> /\ phase = "idle" /\ n = 0
First == phase = "idle" /\ n < 2 /\ n' = n + 1 /\ \E r \in P : best' = r /\ phase' = (IF Again(r) THEN "again" ELSE "found")
         /\ calls' = <<[from |-> best, neg |-> {}]>> /\ UNCHANGED <<rows, file, errs, corr>>
Second == phase = "again" /\ \E r \in P : /\ \A i \in 2..4 : r[i] >= Lower(C, Negative(best), i)
                                          /\ best' = r /\ phase' = "found"
                                          /\ calls' = Append(calls, [from |-> From(C, calls[1].from, Negative(best)), neg |-> Negative(best)])
          /\ UNCHANGED <<rows, file, errs, corr, n>>
Perturb == phase = "found" /\ \E a, b \in {<<0, 3, 5, 4, 1>>, <<3000, -10, 2, 1, 0>>, <<-3000, 4, 7, 4, 3>>} :
             /\ rows' = <<a, b>> /\ file' = <<a, b>>
             /\ errs' = [i \in 1..5 |-> Errors(best[i], Column(<<a, b>>, i))]
             /\ corr' = CorrErrors(best[2], Column(<<a, b>>, 2), R)
           /\ phase' = "idle" /\ UNCHANGED <<best, calls, n>>
Reload == phase = "found" /\ file # <<>> /\ rows' = file /\ errs' = [i \in 1..5 |-> Errors(best[i], Column(file, i))] /\ phase' = "idle"
          /\ corr' = CorrErrors(best[2], Column(file, 2), R) /\ UNCHANGED <<best, file, calls, n>>
Without == phase = "found" /\ errs' = [i \in 1..5 |-> <<0, 0>>] /\ corr' = <<0, 0>> /\ phase' = "idle" /\ UNCHANGED <<best, rows, file, calls, n>>
Next == First \/ Second \/ Perturb \/ Reload \/ Without
(* a width that came out negative at first never does in the end              *)
Settled == (phase # "again" /\ Len(calls) = 2) => \A i \in 2..4 : Bounded(C, calls[2].neg, i) => best[i] >= 0
Starts == Len(calls) = 2 => \A i \in 1..5 : calls[2].from[i] >= Lower(C, calls[2].neg, i) /\ calls[2].from[i] <= Upper(C, i)
(* lower and upper limits are in order, whatever is reported                  *)
Ordered == \A i \in 1..Len(errs) : errs[i][1] + errs[i][2] >= 0
CorrOrdered == corr # <<>> => corr[1] + corr[2] >= 0
CorrSmaller == \A v \in -30..30 : LET c == Corrected(v, R) IN c >= 0 /\ c <= Abs(v) /\ (c * c <= Abs(v * v - R * R)) /\ Corrected(-v, R) = c /\ (Abs(v) <= R => c = 0)
=============================================================================

------------------------------ MODULE MCLine1D ------------------------------
(* Every sequence of up to MaxSets different line groups and every continuum  *)
(* degree; the cases printed are replayed in the code.                        *)
EXTENDS Line1D, TLC, Json
CONSTANTS MaxSets, Ks, Qs
VARIABLES names, order, k, q, done
Names == {"Halpha", "Hbeta", "OIII", "NII", "SII", "OII"}
Distinct(n) == {s \in [1..n -> Names] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Init == names \in UNION {Distinct(n) : n \in 1..MaxSets} /\ order \in 0..3 /\ k \in Ks /\ q \in Qs /\ done = FALSE
Flux == [i \in 1..Len(names) |-> IF i % 2 = 1 THEN 300 + 50 * i ELSE -(200 + 30 * i)]
Cont == [i \in 1..order + 1 |-> 3 + i]
Sets == [i \in 1..Len(names) |-> GroupLines(names[i], k, q)]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<names, order, k, q>>
        /\ ((k = SetMax(Ks) /\ q = SetMax(Qs)) => PrintT(<<"CASE", ToJson([names |-> names, order |-> order])>>))
Where == {Sets[i][j].at + d * Sets[i][j].wide : i \in 1..1, j \in 1..1, d \in {0, 1, -3}} \cup {Sets[Len(names)][1].at + 700}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* the order of the groups does not matter, and each adds its own             *)
Order == done => \A w \in Where : SpectrumAt(Rev(Sets), Rev(Flux), Cont, w) = SpectrumAt(Sets, Flux, Cont, w)
Adds == done => \A w \in Where : SpectrumAt(Sets, Flux, Cont, w)
          = SpectrumAt(Tail(Sets), Tail(Flux), Cont, w) + SetAt(Sets[1], Flux[1], w)
Signs == done => \A w \in Where : SetsAt(Sets, [i \in 1..Len(Flux) |-> -Flux[i]], w) = -SetsAt(Sets, Flux, w)
(* a line is symmetric about its centre, highest there, and holds its flux    *)
Grid == -40..40
Vals(l, f) == [i \in 1..81 |-> LineAt(l, f, l.at + ((i - 41) * l.wide) \div 8)]
LineOK(l, f) == LET v == TLCEval(Vals(l, f)) s == SumSeq(v)
                IN /\ \A i \in 1..40 : Abs(v[41 - i] - v[41 + i]) <= 2 + v[41] \div 300
                   /\ \A i \in 1..81 : v[i] <= v[41]
                   /\ LET got == ((s \div 100) * (l.wide \div 8)) \div 10 want == (f * (l.ratio \div 100)) \div 1000
                      IN Abs(got \div 100 - want) * 200 <= want + 400
Holds == (done /\ Len(names) = 1 /\ order = 0) => \A i \in 1..Len(Sets[1]) : LineOK(Sets[1][i], 400)
(* the same wherever it is: at fixed width in velocity, wider in proportion   *)
Widths == done => \A i \in 1..Len(Sets) : \A j \in 1..Len(Sets[i]) : Abs(Sets[i][j].wide * q - Sets[i][j].at) <= q
Degree == done => \A w \in Where : order = 0 => ContAt(Cont, w) = 1000 * Cont[1]
=============================================================================

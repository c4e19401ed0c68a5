----------------------------- MODULE MCSkyLines -----------------------------
EXTENDS SkyLines, TLC, Json
CONSTANTS NR, NW, Emit, Errs
VARIABLES err, mask, cut, med, done
vars == <<err, mask, cut, med, done>>
Init == /\ err \in [1..NR -> [1..NW -> Errs]]
        /\ mask \in [1..NR -> [1..NW -> {0, 1}]]
        /\ cut \in {<<1, 1>>, <<5, 2>>}
        /\ med \in {<<2, 1>>, <<5, 1>>, <<0, 1>>}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<err, mask, cut, med>>
Spec == Init /\ [][Next]_vars
S == Sky(err, mask, Thresh(cut, med))
Partition == S \cap Clear(NW, S) = {} /\ S \cup Clear(NW, S) = 1..NW
MaskLaw == LET m == SkyMask(mask, S) IN
  /\ \A r \in 1..NR, c \in 1..NW : m[r][c] = 1 => mask[r][c] = 1 /\ c \notin S
  /\ \A r \in 1..NR, c \in 1..NW : (mask[r][c] = 1 /\ c \notin S) => m[r][c] = 1
\* raising the threshold never adds sky channels; masking samples never adds them either
Antitone == Sky(err, mask, Thresh(<<cut[1]+1, cut[2]>>, med)) \subseteq S
MaskMono == S \subseteq Sky(err, [r \in 1..NR |-> [c \in 1..NW |-> 1]], Thresh(cut, med))
RunsLaw == LET rs == Runs(S) IN
  /\ UNION {r[1]..r[2] : r \in rs} = S
  /\ \A a, b \in rs : a # b => a[2] + 1 < b[1] \/ b[2] + 1 < a[1]
EmitCase == (Emit /\ done) => PrintT(<<"CASE", ToJson([err |-> err, mask |-> mask, cut |-> cut, med |-> med])>>)
=============================================================================

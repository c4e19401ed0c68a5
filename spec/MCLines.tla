------------------------------ MODULE MCLines ------------------------------
(* All requests over the published tables: group x explicit names x explicit  *)
(* wavelengths x explicit ratios, resolved repeatedly and with the group      *)
(* renamed in between.                                                        *)
EXTENDS Lines, TLC, Json
CONSTANT Emit
VARIABLES q, q0, ok, n
vars == <<q, q0, ok, n>>
GroupNames == DOMAIN Groups \cup {"Paschen", "halpha", ""}
NameSets == {<<>>, <<"HA6565">>, <<"OIII4960", "OIII5008">>, <<"NII6550", "HA6565", "NII6585">>, <<"HA6563">>}
WaveSets(k) == {<<>>} \cup {[i \in 1..k |-> 5000000 + 1000 * i]}
RatioSets(k) == {<<>>} \cup {[i \in 1..k |-> 250000 * i]}
NumLines(g, ns) == IF ns # <<>> THEN Len(ns) ELSE IF g \in DOMAIN Groups THEN Len(Groups[g]) ELSE 1
Init == /\ \E g \in GroupNames, ns \in NameSets :
            \E w \in WaveSets(NumLines(g, ns)), r \in RatioSets(NumLines(g, ns)) :
               q = [group |-> g, names |-> ns, waves |-> w, ratios |-> r]
        /\ q0 = q /\ ok = LegalReq(q, Std) /\ n = 0
Resolve == ok /\ n < 3 /\ q' = AsExplicit(q, Std) /\ n' = n + 1 /\ UNCHANGED <<q0, ok>>
Rename == ok /\ n > 0 /\ n < 3 /\ \E g \in GroupNames : q' = [q EXCEPT !.group = g] /\ n' = n + 1 /\ UNCHANGED <<q0, ok>>
Next == Resolve \/ Rename
Spec == Init /\ [][Next]_vars
Aligned == n > 0 => (Len(q.names) = Len(q.waves) /\ Len(q.names) = Len(q.ratios))
Stable == n > 0 => (q.names = ResolvedNames(q0, Std) /\ q.waves = ResolvedWaves(q0, Std) /\ q.ratios = ResolvedRatios(q0, Std))
ExplicitKept == /\ q0.names # <<>> => q.names = q0.names
                /\ q0.waves # <<>> => q.waves = q0.waves
                /\ q0.ratios # <<>> => q.ratios = q0.ratios
RatiosNormalised == \A g \in DOMAIN Groups : \E i \in 1..Len(Groups[g]) : Ratio[Groups[g][i]] = 1000000
StillLegal == (ok /\ n > 0) => LegalReq(q, Std)
EmitCase == (Emit /\ n = 0) => PrintT(<<"CASE", ToJson(q)>>)
=============================================================================

-------------------------------- MODULE Lines --------------------------------
(* Resolution of a line set into names, rest wavelengths and flux ratios.     *)
(* A request has a group name and optional explicit names, wavelengths and    *)
(* ratios ( <<>> when absent).  T is a set of tables: [groups, wave, ratio].  *)
EXTENDS Common, Tables

Std == [groups |-> Groups, wave |-> RestWave, ratio |-> Ratio]

ResolvedNames(q, T) == IF q.names # <<>> THEN q.names
                       ELSE IF q.group \in DOMAIN T.groups THEN T.groups[q.group] ELSE <<>>
Known(ns, tab) == \A i \in 1..Len(ns) : ns[i] \in DOMAIN tab
Map(ns, tab) == [i \in 1..Len(ns) |-> tab[ns[i]]]

\* every line that has to be looked up is tabulated
LegalReq(q, T) == LET ns == ResolvedNames(q, T) IN
  /\ ns # <<>>
  /\ q.waves # <<>> \/ Known(ns, T.wave)
  /\ q.ratios # <<>> \/ Known(ns, T.ratio)
ResolvedWaves(q, T) == IF q.waves # <<>> THEN q.waves ELSE Map(ResolvedNames(q, T), T.wave)
ResolvedRatios(q, T) == IF q.ratios # <<>> THEN q.ratios ELSE Map(ResolvedNames(q, T), T.ratio)

\* after resolution everything is explicit
AsExplicit(q, T) == [q EXCEPT !.names = ResolvedNames(q, T), !.waves = ResolvedWaves(q, T), !.ratios = ResolvedRatios(q, T)]

\* default range of a spectrum: explicit, else tabulated for the first line
RangeOf(given, tab, first) == IF given # <<>> THEN given ELSE IF first \in DOMAIN tab THEN tab[first] ELSE <<>>
=============================================================================

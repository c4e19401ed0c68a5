-------------------------------- MODULE Trim --------------------------------
(* Wavelength trimming of 1D and 2D spectra.                                *)
(*                                                                          *)
(* A spectrum object is described by  cols : the ascending sequence of the   *)
(* original channel numbers it still holds, and  obs : whether it holds any  *)
(* data.  A request  q  carries the redshift factor 1+z = n/d, and optional  *)
(* observed range, rest range and line name ( <<>> / "" when absent ).       *)
EXTENDS Common, Tables

Given(r) == r # <<>>

(* is the request legal?  1D: needs some range or a tabulated line.          *)
(* 2D: exactly one of observed and rest range, or else a tabulated line.     *)
Legal(dim, q) ==
  IF dim = 1
  THEN \/ Given(q.obs) \/ Given(q.rest)
       \/ q.line \in DOMAIN Trim1D
  ELSE /\ ~(Given(q.obs) /\ Given(q.rest))
       /\ \/ Given(q.obs) \/ Given(q.rest)
          \/ q.line \in DOMAIN LineRange

(* rest-frame range in force (only used when no observed range applies)      *)
RestOf(dim, q) == IF Given(q.rest) THEN q.rest
                  ELSE IF dim = 1 THEN Trim1D[q.line] ELSE LineRange[q.line]

InRange(w, dim, q) ==
  IF Given(q.obs)
  THEN w >= q.obs[1] /\ w <= q.obs[2]
  ELSE LET r == RestOf(dim, q)
       IN q.d * w >= q.n * r[1] /\ q.d * w <= q.n * r[2]

TrimCols(wave, cols, dim, q) ==
  SelectSeq(cols, LAMBDA c : InRange(wave[c], dim, q))

(* ---- objects: a function from object numbers to kept channels ----------- *)
(* 1D trims and copying trims create object q.res and leave q.o unchanged    *)
Trimmed(objs, wave, dim, q) ==
  LET kept == TrimCols(wave, objs[q.o], dim, q)
      put(o, v) == [x \in DOMAIN objs \cup {o} |-> IF x = o THEN v ELSE objs[x]]
  IN IF ~Legal(dim, q) THEN objs
     ELSE IF dim = 2 /\ q.inplace THEN put(q.o, kept)
     ELSE put(q.res, kept)
=============================================================================

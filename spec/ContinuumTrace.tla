--------------------------- MODULE ContinuumTrace ---------------------------
(* "cont": continuum subtraction of a whole image, results in units of 1/1000 *)
(* (raw values in units of 1).  "linear": data whose continuum is exactly     *)
(* b[r] + a*x outside the line window and masked samples.  "none": disabled.  *)
EXTENDS Continuum, TraceKit
TInit == <<>>
TStep(s, e) == s
Shapes(e, n) == /\ Len(e.cont) = Len(e.q.flux) /\ Len(e.flux) = Len(e.q.flux) /\ Len(e.incl) = Len(e.q.flux)
                /\ \A r \in 1..Len(e.cont) : Len(e.cont[r]) = n /\ Len(e.flux[r]) = n /\ Len(e.incl[r]) = n
Straight(row, tol) == \A i \in 1..(Len(row) - 2) : Abs(row[i] - 2 * row[i+1] + row[i+2]) <= tol
Rise(row) == row[Len(row)] - row[1]
TFails(s, e) ==
  IF e.raised # "" THEN {"subtraction raised"} ELSE
  LET q == e.q
      cols == FullC(q)
      n == Len(cols)
      m == TLCEval(IF e.k = "none" THEN Mask0(q) ELSE MaskC(q))
      U == IF e.k = "none" THEN {} ELSE Usable1(q)
      one == OneSided(q, U)
      filled == TLCEval(CutCols(TLCEval(Flux0(q, m)), cols))
      maskF == TLCEval(CutCols(m, cols))
      base == Failing([
        cols |-> e.wave = Pick(q.wave, cols),
        incl |-> e.incl = filled,
        mask |-> e.mask = maskF,
        reversible |-> \A r \in 1..Len(q.flux) : \A i \in 1..n : Abs(e.flux[r][i] + e.cont[r][i] - 1000 * filled[r][i]) <= e.tol ])
  IN IF e.wave # Pick(q.wave, cols) \/ ~Shapes(e, n) THEN {"wavelengths or shapes"} ELSE
  CASE e.k = "none" -> base \cup Failing([ zero |-> \A r \in 1..Len(q.flux) : \A i \in 1..n : e.cont[r][i] = 0,
                                           oned |-> e.onedsame ])
    [] e.k = "cont" ->
       LET S == (LeftC(q) \cup RightC(q))
           x0 == q.x0
           sl == TLCEval(SlopeMilli(q, U, x0))
           good(r) == {c \in S : m[r][c] = 1 /\ W(q.err[r][c]) > 0}
       IN base \cup Failing([
          straight |-> \A r \in 1..Len(e.cont) : Straight(e.cont[r], 6),
          oneslope |-> \A r \in 1..Len(e.cont) : Abs(Rise(e.cont[r]) - Rise(e.cont[1])) <= 8,
          slope    |-> Abs(Rise(e.cont[1]) - sl * (n - 1)) <= 2 * n + 8,
          zeroside |-> one => Abs(Rise(e.cont[1])) <= 4,
          level    |-> \A r \in 1..Len(e.cont) : good(r) # {} =>
                         Abs(e.cont[r][1] + sl * (x0 - cols[1]) - Intercept(good(r), q.flux[r], q.err[r], x0, sl)) <= 2 * n + 12,
          oned     |-> e.onedwave = e.wave ])
    [] e.k = "linear" ->
       base \cup Failing([
          removed |-> \A r \in 1..Len(e.cont) :
             ({c \in LeftC(q) \cup RightC(q) : m[r][c] = 1 /\ q.err[r][c] > 0} # {} /\ ~one) =>
                \A i \in 1..n : Abs(e.cont[r][i] - 1000 * (q.b[r] + q.a * (cols[i] - q.x0))) <= e.tol ])
    [] OTHER -> {"unknown event"}
=============================================================================

-------------------------------- MODULE Mock --------------------------------
(* Mock observations: the model of a request, on a detector made for it.     *)
(* A request r: slit length L8 in pixels/8, least number of rows least,      *)
(* offset ysh4 of the object from the middle of the slit in pixels/4, and    *)
(* the fields of a view (Slit) that do not depend on the detector.           *)
EXTENDS Slit
Rows(r) == Max2(r.least, (r.L8 + 7) \div 8)
Centre4(r) == 2 * (Rows(r) - 1)                        \* middle of the slit, rows/4
ViewOf(r) == [rows |-> Rows(r), ns |-> r.ns, W |-> r.W, M4 |-> Centre4(r) + r.ysh4, Xc |-> 0, pc |-> r.pc, ps |-> r.ps, pd |-> r.pd,
              ic |-> r.ic, is |-> r.is, id |-> r.id, a |-> r.a, b |-> r.b, c |-> r.c, d |-> r.d]
SlitObs(r) == Image(ViewOf(r))
CubeObs(r) == Cube(ViewOf(r))
(* pixels of a cube row behind a slit of n whole pixels (n as even as rows)   *)
First(rows, n) == (rows - n) \div 2 + 1
Through(row, n) == SumSeq(SubSeq(row, First(Len(row), n), First(Len(row), n) + n - 1))
=============================================================================

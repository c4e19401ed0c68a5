------------------------------- MODULE Angles -------------------------------
(* Misalignment between the galaxy major axis and the slit.  Angles are       *)
(* integers in units of 1/U degree (U even divides 180 exactly).              *)
EXTENDS Common
CONSTANT U
Half == 180 * U
\* difference of two axes folded into (-90, 90]; exactly a quarter turn may be
\* reported with either sign
Fold(x) == LET m == x - Half * FloorDiv(x, Half) IN IF 2 * m > Half THEN m - Half ELSE m
Misalign(gal, slit, img) == Fold(gal - (slit - img))
SameAxis(a, b) == (a - b) % Half = 0
Accept(got, gal, slit, img, tol) ==
  LET w == Misalign(gal, slit, img) IN
  \/ Abs(got - w) <= tol
  \/ (2 * Abs(w) >= Half - 2 * tol /\ Abs(got + w) <= 2 * tol)
=============================================================================

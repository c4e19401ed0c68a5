------------------------------ MODULE MCAngles ------------------------------
(* All orientations on a 15-degree grid, with repeated rotations of the image *)
(* together with the slit and half turns of either axis.                      *)
EXTENDS Angles, TLC, Json
VARIABLES gal, slit, img, d0
vars == <<gal, slit, img, d0>>
A == {15 * U * k : k \in -12..12}
Init == /\ gal \in A /\ slit \in A /\ img \in {0, 30 * U, 90 * U} /\ d0 = Misalign(gal, slit, img)
HalfTurn == \/ (gal < Half * 2 /\ gal' = gal + Half /\ UNCHANGED <<slit, img>>)
            \/ (slit > -Half * 2 /\ slit' = slit - Half /\ UNCHANGED <<gal, img>>)
RotateBoth == img < Half /\ img' = img + 15 * U /\ slit' = slit + 15 * U /\ UNCHANGED gal
Next == (HalfTurn \/ RotateBoth) /\ UNCHANGED d0
Spec == Init /\ [][Next]_vars
Invariant == Misalign(gal, slit, img) = d0
InRange == -Half < 2 * d0 /\ 2 * d0 <= Half
IsAxisDifference == SameAxis(d0, gal - slit + img)
Antisymmetric == LET w == Misalign(slit - img, gal, 0) IN w = -d0 \/ 2 * Abs(d0) = Half
AcceptsItself == Accept(d0, gal, slit, img, 1)
=============================================================================

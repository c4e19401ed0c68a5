SPECIFICATION Spec
INVARIANTS Reversed HalfTurn Mirror Flip FaceOn Across Along Redshifts

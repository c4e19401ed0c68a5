CONSTANT Emit = TRUE
SPECIFICATION Spec
INVARIANTS Aligned Stable ExplicitKept RatiosNormalised StillLegal EmitCase

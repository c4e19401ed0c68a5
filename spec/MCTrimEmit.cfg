CONSTANTS NW = 2  MaxOps = 2  Emit = TRUE
SPECIFICATION Spec
INVARIANTS OrderKept Exact Isolated Contiguous Composes EmitCase

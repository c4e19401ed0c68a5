CONSTANTS NW = 3  MaxOps = 2  Emit = FALSE
SPECIFICATION Spec
INVARIANTS OrderKept Exact Isolated Contiguous Composes

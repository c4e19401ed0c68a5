CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Exact Level Shift

CONSTANTS U = 2
SPECIFICATION Spec
INVARIANTS Invariant InRange IsAxisDifference Antisymmetric AcceptsItself

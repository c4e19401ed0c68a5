CONSTANTS N = 3  U = 60000
SPECIFICATION Spec
INVARIANTS Determined LowGivesZero

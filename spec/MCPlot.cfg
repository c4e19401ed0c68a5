INIT Init
NEXT Next
CONSTANTS N = 8  V = {0, 1, 2, 5, 7}
INVARIANTS All
CHECK_DEADLOCK FALSE

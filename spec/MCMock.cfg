INIT Init
NEXT Next
CONSTANTS Lengths = {1, 15, 16, 17, 24, 31, 32, 33, 36}  Leasts = {2, 3, 4}
INVARIANTS All
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS MaxSets = 3  Ks = {0, 65, 150}  Qs = {900, 2000}
INVARIANTS Order Adds Signs Holds Widths Degree
CHECK_DEADLOCK FALSE

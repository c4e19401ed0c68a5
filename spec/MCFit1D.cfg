INIT Init
NEXT Next
INVARIANTS Settled Starts Ordered CorrOrdered CorrSmaller
CHECK_DEADLOCK FALSE

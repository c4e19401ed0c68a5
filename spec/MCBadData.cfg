CONSTANTS NW = 3  MaxSteps = 2
SPECIFICATION Spec
INVARIANTS Monotone Idempotent Complete OnlyBad EdgeCount FillSafe FillClean

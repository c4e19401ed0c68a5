CONSTANTS NR = 2  NW = 2  Emit = TRUE Errs = {0, 3, 4}
SPECIFICATION Spec
INVARIANTS Partition MaskLaw Antitone MaskMono RunsLaw EmitCase

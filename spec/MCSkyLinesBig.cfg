CONSTANTS NR = 2  NW = 3  Emit = FALSE Errs = {3, 4}
SPECIFICATION Spec
INVARIANTS Partition MaskLaw Antitone MaskMono RunsLaw

CONSTANTS NR = 12  Emit = FALSE
SPECIFICATION Spec
INVARIANTS AllLowDropped Extremes NoSlivers EndRule EmitCase

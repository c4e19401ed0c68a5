CONSTANTS NR = 10 Emit = TRUE
SPECIFICATION Spec
INVARIANTS AllLowDropped Extremes NoSlivers EndRule EmitCase

SPECIFICATION Spec
INVARIANTS Complete Nested
PROPERTIES Once AngleKept Holds

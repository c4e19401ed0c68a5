SPECIFICATION Spec
INVARIANT All
CONSTANT NI = 3

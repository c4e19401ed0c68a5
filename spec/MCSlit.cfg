SPECIFICATION Spec
INVARIANT All

SPECIFICATION Spec
INVARIANT All
CONSTANTS
 Offs = {0, 1}
 Turns = {1, 3}
 Lights = {1, 2}

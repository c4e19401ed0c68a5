SPECIFICATION Spec
INVARIANT All
CONSTANTS
 Offs = {0, 1, 2, 3}
 Turns = {1, 2, 3, 4}
 Lights = {1, 2, 3}

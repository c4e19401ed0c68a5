SPECIFICATION Spec
VIEW View
INVARIANTS Honest Stored Reported
CONSTANTS
 MaxSteps = 3
 Floor = 1
 Times = 2

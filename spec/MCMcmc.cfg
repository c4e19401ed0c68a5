SPECIFICATION Spec
VIEW View
INVARIANTS Honest Stored Reported
CONSTANTS
 MaxSteps = 2
 Floor = 1
 Times = 2

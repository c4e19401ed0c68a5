CONSTANT U = 1000
CONSTANTS
 KInit <- TInit
 KStep <- TStep
 KFails <- TFails
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted

CONSTANTS
 KInit <- TInit
 KStep <- TStep
 KFails <- TFails
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted

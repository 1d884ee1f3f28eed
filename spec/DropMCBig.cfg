CONSTANTS MaxN = 4
 MaxSteps = 2
SPECIFICATION Spec
INVARIANTS Indices AtOnce Remaining KeepsContinuity
CHECK_DEADLOCK FALSE

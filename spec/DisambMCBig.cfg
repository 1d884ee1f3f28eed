SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 MaxSteps = 11
 MaxLen = 5
CHECK_DEADLOCK FALSE

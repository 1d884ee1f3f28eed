SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 MaxSteps = 9
 MaxLen = 4
CHECK_DEADLOCK FALSE

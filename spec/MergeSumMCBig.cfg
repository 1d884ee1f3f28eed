SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
 MaxLen = 2
 NumFiles = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE

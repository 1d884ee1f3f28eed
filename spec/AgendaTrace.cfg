CONSTANTS K = {1}
 P = {1}
 MaxLen = 0
INIT TInit
NEXT TNext
INVARIANT TCheck
CHECK_DEADLOCK FALSE

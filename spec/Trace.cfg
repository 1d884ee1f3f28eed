INIT TInit
NEXT TNext
INVARIANT TCheck
CHECK_DEADLOCK FALSE

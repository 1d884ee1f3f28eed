CONSTANTS NF = 2
 MaxTime = 5
 MaxVersion = 1
 PerSet = TRUE
INIT Init
NEXT Next
INVARIANT Current
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

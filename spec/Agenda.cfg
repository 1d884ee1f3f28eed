CONSTANTS K = {1, 2, 3, 4}
 P = {1, 2, 3}
 MaxLen = 0
SPECIFICATION Spec
INVARIANTS TypeOK BestIsMin
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxTrees = 1
INVARIANTS Holds
CHECK_DEADLOCK FALSE

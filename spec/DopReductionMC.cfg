SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxTrees = 2
INVARIANTS Holds
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 2
 MaxTrees = 3
INVARIANTS Exact MassIsNodes Balance
CHECK_DEADLOCK FALSE

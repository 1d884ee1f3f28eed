SPECIFICATION Spec
CONSTANTS MaxN = 2
 MaxTrees = 2
INVARIANTS Exact MassIsNodes Balance
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 MaxToks = 2
 Models = {"4", "6"}
CHECK_DEADLOCK FALSE

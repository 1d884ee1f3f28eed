SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 MaxToks = 3
 Models = {"4", "6", "base", "ftb"}
CHECK_DEADLOCK FALSE

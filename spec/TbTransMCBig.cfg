CONSTANTS MaxN = 4
 Discont = TRUE
 MaxNodes = 6
SPECIFICATION Spec
INVARIANTS Tokens Undone OnlyLabels
CHECK_DEADLOCK FALSE

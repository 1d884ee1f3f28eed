CONSTANTS MaxN = 3
 Discont = TRUE
 MaxNodes = 5
SPECIFICATION Spec
INVARIANTS Tokens Undone OnlyLabels
CHECK_DEADLOCK FALSE

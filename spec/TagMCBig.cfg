SPECIFICATION Spec
CONSTANTS N = 11
 Trees2 = 2
INVARIANTS Agrees Unique
CHECK_DEADLOCK FALSE

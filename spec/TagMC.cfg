SPECIFICATION Spec
CONSTANTS N = 9
 Trees2 = 2
INVARIANTS Agrees Unique
CHECK_DEADLOCK FALSE

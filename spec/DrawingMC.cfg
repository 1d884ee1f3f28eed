CONSTANTS
N = 3
Scale = 2
U = 0
MaxRows = 3
SPECIFICATION Spec
INVARIANT ReadBack
CHECK_DEADLOCK FALSE

CONSTANTS
N = 4
Scale = 2
U = 0
MaxRows = 4
SPECIFICATION Spec
INVARIANT ReadBack
CHECK_DEADLOCK FALSE

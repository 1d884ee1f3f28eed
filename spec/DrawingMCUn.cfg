CONSTANTS
N = 3
Scale = 2
U = 1
MaxRows = 5
SPECIFICATION Spec
INVARIANT ReadBack
CHECK_DEADLOCK FALSE

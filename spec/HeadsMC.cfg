SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS OneHead Complete Agreement
CHECK_DEADLOCK FALSE

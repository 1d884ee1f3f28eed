SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS OneHead Complete Agreement
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxRules = 3
INVARIANTS Sound Total
CHECK_DEADLOCK FALSE

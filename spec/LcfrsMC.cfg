SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS NoFailure FanOuts Top Done
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxN = 5
INVARIANTS NoFailure FanOuts Top Done
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxReq = 5
INVARIANTS Ordered Distinct
PROPERTY Exhaustive
CHECK_DEADLOCK FALSE

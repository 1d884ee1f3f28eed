SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxReq = 4
INVARIANTS Ordered Distinct
PROPERTY Exhaustive
CHECK_DEADLOCK FALSE

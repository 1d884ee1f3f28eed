SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxFrags = 2
 Flat = FALSE
INVARIANTS Inv Distinct Refill
CHECK_DEADLOCK FALSE

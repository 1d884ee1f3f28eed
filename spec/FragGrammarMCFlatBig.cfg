SPECIFICATION Spec
CONSTANTS MaxN = 7
 MaxFrags = 2
 Flat = TRUE
INVARIANTS Inv Distinct Refill
CHECK_DEADLOCK FALSE

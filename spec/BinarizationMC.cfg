CONSTANTS MaxN = 3
 Labs = {"A"}
 Hs = {0, 1, 999}
 Vs = {1, 3}
SPECIFICATION Spec
INVARIANTS Arity Order Restored NoGeneralization
CHECK_DEADLOCK FALSE

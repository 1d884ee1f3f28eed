CONSTANTS MaxN = 4
 Labs = {"A"}
 Hs = {0, 1, 2, 999}
 Vs = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Arity Order Restored NoGeneralization
CHECK_DEADLOCK FALSE

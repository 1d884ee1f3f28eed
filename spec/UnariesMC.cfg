CONSTANTS MaxN = 3
 Labs = {"A"}
 Un = 2
SPECIFICATION Spec
INVARIANTS Chains Order Restored
CHECK_DEADLOCK FALSE

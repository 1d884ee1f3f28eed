SPECIFICATION Spec
CONSTANTS MaxN = 3
 Words = {"a"}
INVARIANTS Complete Grown Maximal Symmetric
CHECK_DEADLOCK FALSE

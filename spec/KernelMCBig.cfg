SPECIFICATION Spec
CONSTANTS MaxN = 3
 Words = {"a", "b"}
INVARIANTS Complete Grown Maximal Symmetric
CHECK_DEADLOCK FALSE

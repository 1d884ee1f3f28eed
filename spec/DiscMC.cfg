CONSTANTS MaxN = 3
 Labs = {"A", "B"}
 MaxN1 = 5
SPECIFICATION Spec
INVARIANTS Tokens IsContinuous Ordered Count KeepsLabels Restored
CHECK_DEADLOCK FALSE

CONSTANTS MaxTok = 7
 Labs = {"", "A", "B"}
 MaxN = 3
SPECIFICATION Spec
INVARIANTS Balance Faithful OneTree
CHECK_DEADLOCK FALSE

CONSTANTS MaxN = 3
 Labs = {"A", "B"}
 MaxN1 = 5
 Unary = 1
 Disc = FALSE
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE

CONSTANTS MaxN = 4
 Labs = {"A", "B"}
 MaxN1 = 5
 Unary = 0
 Disc = TRUE
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE

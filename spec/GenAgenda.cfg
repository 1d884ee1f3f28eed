CONSTANTS K = {1, 2}
 P = {1, 2}
 MaxLen = 4
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE

CONSTANTS N = 3
 MaxKids = 2
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS MaxLen = 7
 NQ = 10
INVARIANT Same
INVARIANT Fine
CHECK_DEADLOCK FALSE

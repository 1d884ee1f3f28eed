CONSTANTS NTok = 3
Un = 0
Labs = {"A", "B"}
Params = {"std", "all", "unl", "disc", "del", "delB", "eq", "drp", "dw"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Bounded Identical Symmetric Related LaExact Order

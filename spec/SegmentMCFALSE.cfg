CONSTANTS
  MaxLen = 9
  Symbols = {"(", ")", "w", "n"}
  Robust = FALSE
INIT Init
NEXT Next
INVARIANTS Finds Prefix Bounded
CHECK_DEADLOCK FALSE

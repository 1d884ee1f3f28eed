CONSTANTS
  MaxLen = 9
  Symbols = {"(", ")", "w", "n"}
  Robust = TRUE
INIT Init
NEXT Next
INVARIANTS Finds Prefix Bounded
CHECK_DEADLOCK FALSE

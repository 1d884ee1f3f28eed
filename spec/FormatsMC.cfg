CONSTANTS
  MaxN = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Idempotent Monotone Recover
CHECK_DEADLOCK FALSE

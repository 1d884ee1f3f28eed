CONSTANT MaxN = 4
SPECIFICATION Spec
INVARIANT InRange
PROPERTIES Monotone NeverSimpler
CHECK_DEADLOCK FALSE

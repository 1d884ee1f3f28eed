CONSTANT MaxN = 3
SPECIFICATION Spec
INVARIANT InRange
PROPERTIES Monotone NeverSimpler
CHECK_DEADLOCK FALSE

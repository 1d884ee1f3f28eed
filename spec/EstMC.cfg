SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Bound Sound GoalFirst NoneTwice Complete
CHECK_DEADLOCK FALSE

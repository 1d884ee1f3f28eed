SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Bound Sound GoalFirst NoneTwice Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 3 BySize = FALSE
INVARIANTS Sound Best Once Complete GoalFirst Counts
CHECK_DEADLOCK FALSE

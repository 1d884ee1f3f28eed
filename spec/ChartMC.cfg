SPECIFICATION Spec
CONSTANTS MaxLen = 3 BySize = TRUE
INVARIANTS Sound Best Once Complete GoalFirst Counts
CHECK_DEADLOCK FALSE

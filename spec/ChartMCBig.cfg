SPECIFICATION Spec
CONSTANTS MaxLen = 4 BySize = TRUE
INVARIANTS Sound Best Once Complete GoalFirst Counts
CHECK_DEADLOCK FALSE

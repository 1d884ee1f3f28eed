CONSTANTS
MaxSents = 3
MaxIters = 2
MaxOps = 7
Dups = TRUE
SPECIFICATION Spec
INVARIANT AnswersRight ItersRight
CHECK_DEADLOCK FALSE

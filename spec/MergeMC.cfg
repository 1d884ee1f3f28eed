CONSTANTS MaxLen = 3
 NumInputs = 3
 Keys = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS IsPrefixOfMerge Complete
CHECK_DEADLOCK FALSE

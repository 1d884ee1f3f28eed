CONSTANTS NF = 2
 NQ = 1
 MaxHits = 2
 MaxLimit = 2
 CacheSize = 1
 MaxOps = 3
 Workers = 2
SPECIFICATION Spec
INVARIANTS Correct CacheOk
PROPERTY Answered
CHECK_DEADLOCK FALSE

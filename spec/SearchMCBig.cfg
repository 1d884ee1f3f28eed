CONSTANTS NF = 2
 NQ = 2
 MaxHits = 1
 MaxLimit = 1
 CacheSize = 2
 MaxOps = 3
 Workers = 2
SPECIFICATION Spec
INVARIANTS Correct CacheOk

CHECK_DEADLOCK FALSE

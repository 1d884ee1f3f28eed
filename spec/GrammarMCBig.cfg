SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxBatch = 1
INVARIANTS Whole Rejected Distinct Sums Fans Lossless Switching
CHECK_DEADLOCK FALSE

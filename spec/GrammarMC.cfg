SPECIFICATION Spec
CONSTANTS MaxOps = 2 MaxBatch = 1
INVARIANTS Whole Rejected Distinct Sums Fans Lossless Switching
CHECK_DEADLOCK FALSE

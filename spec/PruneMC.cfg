SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxCut = 2
INVARIANTS Exact1 EdgesOk NoLoss
PROPERTY Shrinks
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxCut = 4
INVARIANTS Exact1 EdgesOk NoLoss
PROPERTY Shrinks
CHECK_DEADLOCK FALSE

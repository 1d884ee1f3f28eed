CONSTANTS K = {1, 2}
 P = {1, 2}
 MaxCount = 5
 MaxHeap = 4
SPECIFICATION Spec
CONSTRAINT Bound
PROPERTY Refines
CHECK_DEADLOCK FALSE

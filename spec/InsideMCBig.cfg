SPECIFICATION Spec
CONSTANTS MaxLen = 3 Free = 0
INVARIANTS Topological Complete Exact1 Post
CHECK_DEADLOCK FALSE

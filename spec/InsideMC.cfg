SPECIFICATION Spec
CONSTANTS MaxLen = 2 Free = 1
INVARIANTS Topological Complete Exact1 Post
CHECK_DEADLOCK FALSE

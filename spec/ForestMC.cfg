CONSTANTS N = 2
 MaxN = 3
 Ops = {"append", "insert", "set", "setpath", "setslice", "delslice", "extend", "new", "remove", "pop", "del", "detach", "disown", "prune", "spliceabove", "splicebelow"}
SPECIFICATION Spec
VIEW View
INVARIANTS OneParent Links
PROPERTY RejectedUnchanged
CHECK_DEADLOCK FALSE

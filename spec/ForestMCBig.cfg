CONSTANTS N = 3
 MaxN = 4
 Ops = {"append", "insert", "set", "setpath", "setslice", "delslice", "extend", "new", "remove", "pop", "del", "detach", "disown", "prune", "spliceabove", "splicebelow"}
SPECIFICATION Spec
VIEW View
INVARIANTS OneParent Links
PROPERTY RejectedUnchanged
CHECK_DEADLOCK FALSE

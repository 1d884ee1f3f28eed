SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 Labs = {"a", "b"}
INVARIANTS Zero Symmetric Progress Tabulated Lipschitz
CHECK_DEADLOCK FALSE

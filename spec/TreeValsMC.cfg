CONSTANTS MaxN = 3
 Labs = {"A", "B"}
SPECIFICATION Spec
INVARIANTS AtIsSub ReplaceSame ReplacedAt DeleteOne OncePre LeavesAt SpanLowest
CHECK_DEADLOCK FALSE

CONSTANTS MaxLen = 6
 MaxKids = 4
SPECIFICATION Spec
INVARIANTS Optimal NeverExhausted DPAgrees
PROPERTY Settled
CHECK_DEADLOCK FALSE

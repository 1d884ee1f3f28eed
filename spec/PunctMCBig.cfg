CONSTANTS MaxN = 4
 MaxSteps = 2
SPECIFICATION Spec
INVARIANTS Tokens KeepsConstituents Removes RootHasPunct Idempotent
CHECK_DEADLOCK FALSE

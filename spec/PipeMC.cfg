SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Agrees LastIsSource Tree OnlyOnce IsSound
CHECK_DEADLOCK FALSE

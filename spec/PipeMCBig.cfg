SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Agrees LastIsSource Tree OnlyOnce IsSound
CHECK_DEADLOCK FALSE

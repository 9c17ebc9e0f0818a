SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Atomic
CHECK_DEADLOCK FALSE

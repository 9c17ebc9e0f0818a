SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Atomic
CHECK_DEADLOCK FALSE

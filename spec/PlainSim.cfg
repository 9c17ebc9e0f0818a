SPECIFICATION SpecSim
INVARIANT Inv
CHECK_DEADLOCK FALSE

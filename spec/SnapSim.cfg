SPECIFICATION SpecSim
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS PLen <- MCPLen
 Snaps <- MCSnaps

SPECIFICATION SpecAll
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS PLen <- MCPLen
 Snaps <- MCSnaps

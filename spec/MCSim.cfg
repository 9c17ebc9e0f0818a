SPECIFICATION SpecSim
CONSTANT PLen <- MCPLen
CONSTANT Files <- MCFiles
CONSTANT BadFiles <- MCBad
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION SpecAll
CONSTANT PLen <- MCPLen
CONSTANT Files <- MCFiles
CONSTANT BadFiles <- MCBad
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

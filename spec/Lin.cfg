SPECIFICATION LinSpec
CONSTANT PLen <- MCPLen
CONSTANT Files <- MCFiles
CONSTANT BadFiles = {}
CHECK_DEADLOCK FALSE

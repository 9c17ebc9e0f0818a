SPECIFICATION StmSpec
CHECK_DEADLOCK FALSE

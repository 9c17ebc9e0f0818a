SPECIFICATION SoloSpec
CONSTANT Threads = {1, 2}
CONSTANT Vars = {1, 2}
CONSTANT Programs <- PickSolo
PROPERTY Releases Commits
CHECK_DEADLOCK FALSE

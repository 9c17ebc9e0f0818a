SPECIFICATION SoloSpec
CONSTANT Threads = {1, 2}
CONSTANT Vars = {1, 2}
CONSTANT Programs <- Pick2
PROPERTY Releases Commits
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3, 4}
CONSTANT Rounds = 3
CONSTANT Locked = TRUE
INVARIANT Readable NotWritable Exact NoFailure
PROPERTY Done

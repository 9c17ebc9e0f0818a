SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Rounds = 2
CONSTANT Locked = TRUE
INVARIANT Readable NotWritable Exact NoFailure
PROPERTY Done

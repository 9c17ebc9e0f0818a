SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Calls = 1
INVARIANT NoGarbage Whole
PROPERTY Changes Done

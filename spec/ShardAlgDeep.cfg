SPECIFICATION Spec
CONSTANT Threads = {1, 2}
CONSTANT Calls = 3
INVARIANT NoGarbage Whole
PROPERTY Changes Done

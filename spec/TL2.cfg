SPECIFICATION Spec
CONSTANT Threads = {1, 2}
CONSTANT Vars = {1, 2}
CONSTANT Programs <- Pick2
INVARIANT Opaque Memory OnlyHolders VersionsBehind NoLockLeft FirstTry
PROPERTY Serializable

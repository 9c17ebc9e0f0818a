SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
CONSTANT Vars = {1, 2}
CONSTANT Programs <- Pick3
INVARIANT Opaque Memory OnlyHolders VersionsBehind NoLockLeft FirstTry
PROPERTY Serializable

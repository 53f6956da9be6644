SPECIFICATION Spec
CONSTANTS
 Max = 3
 Writes = 4
 MaxSize = 2
 Prealloc = 2
 Merge = "guarded"
INVARIANTS InvIdx InvLen NotBad Drained
PROPERTY NeverBack
CHECK_DEADLOCK FALSE

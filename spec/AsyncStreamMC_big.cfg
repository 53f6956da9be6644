SPECIFICATION Spec
CONSTANTS
 Max = 4
 Writes = 6
 MaxSize = 2
 Prealloc = 3
 Merge = "guarded"
INVARIANTS InvIdx InvLen NotBad Drained
PROPERTY NeverBack
CHECK_DEADLOCK FALSE

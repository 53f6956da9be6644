SPECIFICATION MSpec
CONSTANTS T = {1, 2} H = {1, 2} MaxOps = 4 MaxDepth = 3 Guarded = TRUE Popul = 2 AllowAsync = FALSE Worker = 9
INVARIANTS OrderOnce PopulateFirst MutexHeld
PROPERTIES Complete NoneAfterRelease Barrier
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS T = {1, 2} H = {1, 2, 3} MaxOps = 5 MaxDepth = 4 Guarded = TRUE Popul = 0 AllowAsync = FALSE Worker = 9
INVARIANTS OrderOnce PopulateFirst MutexHeld
PROPERTIES Complete NoneAfterRelease Barrier
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS T = {1, 2} G = {1, 2} MaxOps = 4 MaxDepth = 4
INVARIANTS RunsOnce
PROPERTIES NoStartAfterRelease Barrier
CHECK_DEADLOCK FALSE

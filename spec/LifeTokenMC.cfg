SPECIFICATION MSpec
CONSTANTS T = {1, 2} G = {1, 2} MaxOps = 3 MaxDepth = 3
INVARIANTS RunsOnce
PROPERTIES NoStartAfterRelease Barrier
CHECK_DEADLOCK FALSE

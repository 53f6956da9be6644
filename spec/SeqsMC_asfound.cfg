SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Vals = {1, 2}
 Depth = 1
 Fixed = FALSE
INVARIANTS NotBad EndIsEnd
CHECK_DEADLOCK FALSE

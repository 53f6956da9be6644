SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Vals = {1, 2}
 Depth = 2
 Fixed = TRUE
INVARIANTS NotBad EndIsEnd
CHECK_DEADLOCK FALSE

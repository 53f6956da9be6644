SPECIFICATION Spec
CONSTANTS
 Guard = TRUE
 MaxOps = 4
INVARIANTS Good Apart NeverEmpty
CHECK_DEADLOCK FALSE

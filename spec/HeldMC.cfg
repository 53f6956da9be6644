SPECIFICATION Spec
CONSTANTS
 Guard = TRUE
 MaxOps = 3
INVARIANTS Good Apart NeverEmpty
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Guard = FALSE
 MaxOps = 3
INVARIANTS Good Apart NeverEmpty
CHECK_DEADLOCK FALSE

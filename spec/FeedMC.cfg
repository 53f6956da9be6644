SPECIFICATION Spec
CONSTANTS
 N = 6
 Stages <- SQ
INVARIANTS Good Holds InOrder
CHECK_DEADLOCK FALSE

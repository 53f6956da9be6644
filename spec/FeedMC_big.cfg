SPECIFICATION Spec
CONSTANTS
 N = 9
 Stages <- SQ
INVARIANTS Good Holds InOrder
CHECK_DEADLOCK FALSE

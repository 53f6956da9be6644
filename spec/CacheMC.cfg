SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3}
 Vs = {1, 2}
 Caps = {0, 1, 2}
INVARIANTS Limit Latest Kept
PROPERTIES InOrder
CHECK_DEADLOCK FALSE

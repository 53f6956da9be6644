SPECIFICATION Spec
CONSTANTS
 Keys = {1, 2, 3}
 Vs = {1, 2, 4}
 Caps = {0, 2, 3}
INVARIANTS Limit Latest Kept
PROPERTIES InOrder
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
 Keys = {0, 1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE

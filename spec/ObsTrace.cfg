SPECIFICATION TSpec
CONSTANTS
 Threads = {0, 1, 2}
 Ls = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE

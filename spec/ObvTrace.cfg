SPECIFICATION TSpec
CONSTANTS
 Threads = {0, 1, 2, 3}
 Hs = {1, 2, 3, 4, 5, 6}
CHECK_DEADLOCK FALSE

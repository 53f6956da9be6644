SPECIFICATION TSpec
CONSTANTS
 Threads = {0, 1, 2, 3, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70}
 Slots = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE

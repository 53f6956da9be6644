SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1}
 Hs = {1}
 Vs = {0, 1}
 Pops = {0, 1, 2}
INVARIANTS Fresh Told
PROPERTIES Once NoEqual
CHECK_DEADLOCK FALSE

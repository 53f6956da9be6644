SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1, 2, 3, 10, 11, 12}
 Slots = {0, 1, 2}
 Kinds = {"once", "sing", "safe", "phx", "thr"}
 MaxK = 3
 MaxRefs = 3
 MaxFail = 2
INVARIANTS Ready Single Kept Joins Owned
PROPERTIES Once1
CHECK_DEADLOCK FALSE

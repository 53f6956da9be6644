SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1, 2, 10, 11}
 Slots = {0, 1}
 Kinds = {"once", "sing", "safe", "phx", "thr"}
 MaxK = 2
 MaxRefs = 2
 MaxFail = 2
INVARIANTS Ready Single Kept Joins Owned
PROPERTIES Once1
CHECK_DEADLOCK FALSE

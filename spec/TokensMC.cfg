SPECIFICATION Spec
CONSTANTS
 Slots = {0, 2, 3}
 Threads = {0, 2}
 Keys = {0}
 MaxOb = 1
 MaxDepth = 3
 Ops = {"put", "reset", "make"}
INVARIANTS InvHeld InvOnce InvNotEarly
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Slots = {0, 1, 3}
 Threads = {0}
 Keys = {0}
 MaxOb = 3
 MaxDepth = 4
 Ops = {"copy", "reset", "wrap", "multi", "make", "attach", "scope"}
INVARIANTS InvHeld InvOnce InvNotEarly
CHECK_DEADLOCK FALSE

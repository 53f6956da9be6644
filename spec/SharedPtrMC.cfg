SPECIFICATION Spec
CONSTANTS
 Slots = {0, 1, 2, 3}
 Threads = {0, 1}
 PerT = 2
 MaxOb = 1
 Ops = {"move", "reset", "lock", "weak", "relu"}
INVARIANTS InvCount InvAlive InvOneDestroyer
PROPERTY NoResurrection
CONSTRAINT Handover
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Slots = {0, 1, 2}
 Threads = {0}
 PerT = 3
 MaxOb = 2
 Ops = {"copy", "move", "reset", "lock", "weak", "relu", "link"}
INVARIANTS InvCount InvAlive InvOneDestroyer
PROPERTY NoResurrection
CONSTRAINT Handover
CHECK_DEADLOCK FALSE

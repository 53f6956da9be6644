SPECIFICATION Spec
CONSTANTS
 Kinds = {"bi", "mem", "memd"}
 Cap = 3
 MaxBytes = 5
 Threads = {1, 2}
INVARIANTS InvCapacity InvConserved InvWindows InvOrder InvOnce
PROPERTY HeldStable
CHECK_DEADLOCK FALSE

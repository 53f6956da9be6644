SPECIFICATION Spec
CONSTANTS
 Writers = {1, 2}
 Caps = {0, 2}
 MaxBytes = 3
INVARIANTS InvOnce InvComplete InvTogether
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Pars <- ParsQ
 MaxBytes = 3
 Writers = {1, 2}
INVARIANTS InvCapacity InvAligned InvOneReader InvOneWriter InvHeld InvRoom InvOrder InvOnce InvConserved
PROPERTY HeldStable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Pars <- ParsQ
 MaxBytes = 4
 Writers = {1}
INVARIANTS InvCapacity InvAligned InvOneReader InvOneWriter InvHeld InvRoom InvOrder InvOnce InvConserved
PROPERTY HeldStable
CHECK_DEADLOCK FALSE

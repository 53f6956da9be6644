SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2, 3}
 MaxPk = 3
 Writers = {1}
 Caps = {3, 4}
INVARIANTS InvCapacity InvSizes InvOneReader InvOneWriter InvRoom InvOnePiece InvOrder
PROPERTY HeldStable
CHECK_DEADLOCK FALSE

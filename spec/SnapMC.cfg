SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Ks = {0, 1}
 Vs = {0, 1}
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE

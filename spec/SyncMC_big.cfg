SPECIFICATION Spec
CONSTANTS
 Threads = {0, 1, 2}
 Kinds <- KQ
 MaxVal = 2
 MaxParties = 3
INVARIANTS Held Permits Told Party
PROPERTIES Excl
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

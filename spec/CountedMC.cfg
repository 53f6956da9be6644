SPECIFICATION Spec
CONSTANTS
 MaxAcq = 3
 MaxRef = 2
 MaxStep = 3
INVARIANTS Balanced OnceEach AllUndone Kept
CHECK_DEADLOCK FALSE

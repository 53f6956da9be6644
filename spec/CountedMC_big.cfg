SPECIFICATION Spec
CONSTANTS
 MaxAcq = 4
 MaxRef = 3
 MaxStep = 4
INVARIANTS Balanced OnceEach AllUndone Kept
CHECK_DEADLOCK FALSE

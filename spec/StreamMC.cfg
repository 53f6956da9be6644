SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Bytes = {1, 10, 13}
INVARIANTS Within
PROPERTIES WhatWasWritten Frame
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Pars <- ParsQ
 MaxBytes = 3
 Writers = {1}
INVARIANTS InvCursor InvAligned InvOneReader InvOneWriter InvPage InvOrder InvOnce
PROPERTIES AppendOnly CursorMoves
CHECK_DEADLOCK FALSE

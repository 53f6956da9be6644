SPECIFICATION Spec
CONSTANTS
 Pars <- ParsQ
 MaxBytes = 4
 Writers = {1, 2}
INVARIANTS InvCursor InvAligned InvOneReader InvOneWriter InvPage InvOrder InvOnce
PROPERTIES AppendOnly CursorMoves
CHECK_DEADLOCK FALSE

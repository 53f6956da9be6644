SPECIFICATION MSpec
CONSTANTS T = {1} Tasks = {1, 2} MaxNow = 2 Timeouts = {0, 1} Periods = {0, 1} Jit = 0
INVARIANTS NeverEarly InOrder NothingAfterClose
PROPERTIES NoBeginAfterReset ResetIsBarrier NothingLost PeriodicGoesOn Prompt
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

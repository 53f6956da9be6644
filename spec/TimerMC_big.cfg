SPECIFICATION MSpec
CONSTANTS T = {1} Tasks = {1, 2, 3} MaxNow = 2 Timeouts = {0, 1} Periods = {0, 1} Jit = 1
INVARIANTS NeverEarly InOrder NothingAfterClose
PROPERTIES NoBeginAfterReset ResetIsBarrier NothingLost PeriodicGoesOn
CONSTRAINT Bound
CHECK_DEADLOCK FALSE

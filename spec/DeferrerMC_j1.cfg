SPECIFICATION MSpec
CONSTANTS T = {1, 2} K = {1, 2, 3} Timeouts = {0, 1} Periods = {0, 1} MaxNow = 2 Jit = 1 MaxCancel = 2
INVARIANTS CloseIsFinal
PROPERTIES CancelIsFinal CancelIsBarrier OnlyArmedRuns NothingLost
CHECK_DEADLOCK FALSE

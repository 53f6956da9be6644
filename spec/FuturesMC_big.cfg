SPECIFICATION MSpec
CONSTANTS T = {1, 2} Ps = {1, 2} Fs = {1, 2} MaxNow = 1 MaxOps = 7
INVARIANTS DeliveredIsTheResult NeverForgotten OneFuturePerPromise
PROPERTIES WriteOnce
CHECK_DEADLOCK FALSE

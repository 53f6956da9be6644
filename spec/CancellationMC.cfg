SPECIFICATION MSpec
CONSTANTS W = {1} C = {2, 3} Toks = {1, 2} MaxNow = 2 MaxOps = 3
INVARIANTS CancelledOnlyIfCancelled TimedOutOnlyAfterDeadline NotifiedMeansNotified SleptMeansSlept WokenMeansCancelled Wakeable
CHECK_DEADLOCK FALSE

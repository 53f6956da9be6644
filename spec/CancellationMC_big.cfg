SPECIFICATION MSpec
CONSTANTS W = {1} C = {2} Toks = {1, 2} MaxNow = 2 MaxOps = 4
INVARIANTS CancelledOnlyIfCancelled TimedOutOnlyAfterDeadline NotifiedMeansNotified SleptMeansSlept WokenMeansCancelled Wakeable
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Clients = {1, 2}  Ks = {1, 2, 3}  Maxes = {1, 2}  Ops = {"try", "wait"}  Nested = FALSE
INVARIANTS Limit OneEach NothingRunsAfterClose RefusedOnlyFull OneTaskPerThread
CHECK_DEADLOCK FALSE

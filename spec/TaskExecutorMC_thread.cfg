SPECIFICATION MCSpec
CONSTANTS Kinds = {"thread"}  Clients = {1, 2}  Tasks = {1, 2, 3}  Toks = {1}  WithNested = TRUE
INVARIANTS AtMostOnce Fifo OnlyAccepted NothingLost
PROPERTIES NoBeginAfterRelease ReleaseIsBarrier
CHECK_DEADLOCK FALSE

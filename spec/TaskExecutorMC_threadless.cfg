SPECIFICATION MCSpec
CONSTANTS Kinds = {"threadless"}  Clients = {1, 2}  Tasks = {1, 2}  Toks = {}  WithNested = FALSE
INVARIANTS AtMostOnce Fifo OnlyAccepted NothingLostThreadless OneRunner
PROPERTIES NoBeginAfterRelease ReleaseIsBarrier
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANT Slots <- TSlots
CONSTANT Threads = {0, 1, 2}
CONSTANT Keys = {0, 1}
CHECK_DEADLOCK FALSE

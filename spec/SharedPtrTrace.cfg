SPECIFICATION TSpec
CONSTANT Slots <- TSlots
CHECK_DEADLOCK FALSE

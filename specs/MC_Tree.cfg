CONSTANTS Depth = 4 Kinds = {1, 2, 3, 4}
INIT Init
NEXT Next
INVARIANTS Sound Parted Undo Codes Emit
CHECK_DEADLOCK FALSE

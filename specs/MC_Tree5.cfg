CONSTANTS Depth = 5 Kinds = {2, 4}
INIT Init
NEXT Next
INVARIANTS Sound Parted Undo Codes Emit
CHECK_DEADLOCK FALSE

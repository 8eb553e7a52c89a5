CONSTANTS Depth = 4 Dyn = TRUE
INIT Init
NEXT Next
INVARIANTS InOrder Apart Complete Holds Emit
CHECK_DEADLOCK FALSE

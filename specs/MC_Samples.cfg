CONSTANT Depth = 4
INIT Init
NEXT Next
INVARIANTS Numbers Distinct Unity Between Shorter Emit
CHECK_DEADLOCK FALSE

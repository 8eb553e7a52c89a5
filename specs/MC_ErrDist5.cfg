CONSTANT Depth = 5
INIT Init
NEXT Next
INVARIANTS TypeOK Free Apart Emit

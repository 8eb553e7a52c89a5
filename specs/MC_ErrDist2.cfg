CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS TypeOK Free Apart Emit

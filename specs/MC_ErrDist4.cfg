CONSTANT Depth = 4
INIT Init
NEXT Next
INVARIANTS TypeOK Free Apart Emit

CONSTANT Depth = 3
INIT Init
NEXT Next
INVARIANTS Sized Built Others  Emit

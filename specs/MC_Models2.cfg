CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS Sized Built Others Emit

CONSTANT Depth = 1
INIT Init
NEXT Next
INVARIANTS Sized Built Others Slope Emit

CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS Edges Monotone Slope LogSlope Normal Circle CircleHas Ordered Emit

CONSTANT Depth = 1
INIT Init
NEXT Next
INVARIANTS Edges Monotone Slope LogSlope Normal Circle CircleHas Ordered Emit

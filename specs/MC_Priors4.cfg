CONSTANT Depth = 4
INIT Init
NEXT Next
INVARIANTS Edges Monotone Slope LogSlope Normal Circle CircleHas Ordered Emit

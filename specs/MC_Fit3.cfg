CONSTANT Depth = 3
INIT Init
NEXT Next
INVARIANTS KeptLaw SlopeLaw Minimum Idempotent Anywhere InverseLaw Emit

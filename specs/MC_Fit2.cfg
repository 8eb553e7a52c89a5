CONSTANT Depth = 2
INIT Init
NEXT Next
INVARIANTS KeptLaw SlopeLaw Minimum Idempotent Anywhere InverseLaw Emit

CONSTANTS N = 3 D = 1 Depth = 3 Levels = 4
INIT Init
NEXT Next
INVARIANTS Inside Rising Evidence Information Positive Widths Bounded LastBest Whole Sums Heavy Emit

CONSTANTS N = 4 D = 2 Depth = 2 Levels = 3
INIT Init
NEXT Next
INVARIANTS Inside Rising Evidence Information Positive Widths Bounded LastBest Whole Sums Heavy Emit

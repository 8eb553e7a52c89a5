CONSTANTS N = 4 D = 1 Depth = 4 Levels = 4
INIT Init
NEXT Next
INVARIANTS Inside Rising Evidence Information Positive Widths Bounded LastBest Whole Sums Heavy Emit

SPECIFICATION Spec
CONSTANTS N = 5
 Depth = 3
INVARIANTS TourInv Allowed Shorter Round Back Undo
VIEW View
CHECK_DEADLOCK FALSE

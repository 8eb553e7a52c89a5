CONSTANTS Depth = 5 Handles = 2 Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INIT Init
NEXT Next
INVARIANTS Lengths Bounded Undo Indices Firsts InLims Emit
CHECK_DEADLOCK FALSE

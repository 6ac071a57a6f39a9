CONSTANTS N = 2  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Counted FreshAfterAccept TakesOver ErrorsRight NoGrowth WithinBounds
CHECK_DEADLOCK FALSE

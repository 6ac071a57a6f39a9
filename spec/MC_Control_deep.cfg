CONSTANTS N = 3  MaxLen = 5
SPECIFICATION Spec
INVARIANTS Counted FreshAfterAccept TakesOver ErrorsRight NoGrowth WithinBounds
CHECK_DEADLOCK FALSE

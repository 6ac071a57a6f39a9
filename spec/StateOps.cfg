CONSTANTS Depth = 4 SetCopies = TRUE SaveCopies = TRUE
SPECIFICATION Spec
INVARIANTS Faithful Independent
CHECK_DEADLOCK FALSE

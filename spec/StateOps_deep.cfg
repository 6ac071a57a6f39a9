CONSTANTS Depth = 5 SetCopies = TRUE SaveCopies = TRUE
SPECIFICATION Spec
INVARIANTS Faithful Independent
CHECK_DEADLOCK FALSE

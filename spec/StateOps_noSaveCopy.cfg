CONSTANTS Depth = 4 SetCopies = TRUE SaveCopies = FALSE
SPECIFICATION Spec
INVARIANTS Faithful
CHECK_DEADLOCK FALSE

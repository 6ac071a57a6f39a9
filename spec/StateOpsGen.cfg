CONSTANTS Depth = 3 SetCopies = TRUE SaveCopies = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

CONSTANTS Depth = 12 SetCopies = TRUE SaveCopies = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

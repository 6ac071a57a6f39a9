CONSTANTS Depth = 4 SetCopies = FALSE SaveCopies = TRUE
SPECIFICATION Spec
INVARIANTS Faithful
CHECK_DEADLOCK FALSE

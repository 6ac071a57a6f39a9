CONSTANTS Ints = {1, 2}  Depth = 5  PrivateOptions = FALSE  PrivateControl = TRUE  ResetControl = TRUE
SPECIFICATION Spec
INVARIANTS Isolated

CHECK_DEADLOCK FALSE

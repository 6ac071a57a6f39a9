CONSTANTS Ints = {1, 2}  Depth = 5  PrivateOptions = TRUE  PrivateControl = FALSE  ResetControl = FALSE
SPECIFICATION Spec
INVARIANTS Isolated

CHECK_DEADLOCK FALSE

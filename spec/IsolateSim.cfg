CONSTANTS Ints = {1, 2}  Depth = 14  PrivateOptions = TRUE  PrivateControl = TRUE  ResetControl = TRUE
SPECIFICATION Spec
INVARIANTS Emit

CHECK_DEADLOCK FALSE

CONSTANTS Ints = {1, 2}  Depth = 5  PrivateOptions = TRUE  PrivateControl = TRUE  ResetControl = TRUE
SPECIFICATION Spec
INVARIANTS Isolated OptionsKept

CHECK_DEADLOCK FALSE

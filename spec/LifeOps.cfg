CONSTANTS Depth = 3 MaxFail = 6 Poison = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE

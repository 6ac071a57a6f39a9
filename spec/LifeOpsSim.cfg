CONSTANTS Depth = 12 MaxFail = 6 Poison = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE

CONSTANTS Depth = 5 MaxFail = 1 Poison = FALSE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE

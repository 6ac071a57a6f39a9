CONSTANTS
  N = 3
  M = 3
  Accumulates = FALSE
  Scoped = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Composed

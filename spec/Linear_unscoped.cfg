CONSTANTS
  N = 3
  M = 3
  Accumulates = TRUE
  Scoped = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Composed

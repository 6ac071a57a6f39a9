CONSTANTS
  N = 3
  M = 3
  Accumulates = TRUE
  Scoped = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Composed

CONSTANTS
  N = 4
  M = 2
  Accumulates = TRUE
  Scoped = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Composed

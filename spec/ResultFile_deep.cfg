SPECIFICATION Spec
CONSTANTS
  MaxN = 12
  MaxRuns = 4
  Truncate = TRUE
  RecomputeAll = FALSE
INVARIANTS Exact NeverHalf
CHECK_DEADLOCK FALSE

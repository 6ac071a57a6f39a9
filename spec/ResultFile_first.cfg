SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxRuns = 3
  Truncate = TRUE
  RecomputeAll = TRUE
INVARIANTS Exact NeverHalf
CHECK_DEADLOCK FALSE

CONSTANTS N = 2  NSlots = 1  Scheme = "all"  MaxOps = 4  MaxLoads = 2
 CompareX = FALSE CompareU = TRUE CompareT = TRUE
 InvalidateAtRun = TRUE InvalidateAtRev = TRUE ClearStore = TRUE FwdPrivate = TRUE
SPECIFICATION Spec
INVARIANTS LinearizedRight CacheComplete NotStuck
CHECK_DEADLOCK FALSE

CONSTANTS N = 3  NSlots = 1  Scheme = "all"  MaxOps = 6  MaxLoads = 3
 CompareX = TRUE CompareU = TRUE CompareT = TRUE
 InvalidateAtRun = TRUE InvalidateAtRev = TRUE ClearStore = TRUE FwdPrivate = TRUE
SPECIFICATION Spec
INVARIANTS LinearizedRight CacheComplete NotStuck
CHECK_DEADLOCK FALSE

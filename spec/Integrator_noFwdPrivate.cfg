CONSTANTS N = 2  NSlots = 1  Scheme = "slots"  MaxOps = 4  MaxLoads = 2
 CompareX = TRUE CompareU = TRUE CompareT = TRUE
 InvalidateAtRun = TRUE InvalidateAtRev = TRUE ClearStore = TRUE FwdPrivate = FALSE
SPECIFICATION Spec
INVARIANTS LinearizedRight CacheComplete NotStuck
CHECK_DEADLOCK FALSE

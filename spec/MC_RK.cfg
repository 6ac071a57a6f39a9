CONSTANTS P = 5  NInst = 60  NSteps = 3  MaxN = 3  MaxM = 2  MaxS = 3
SPECIFICATION Spec
INVARIANTS Tangent Duality Split
CHECK_DEADLOCK FALSE

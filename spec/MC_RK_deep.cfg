CONSTANTS P = 5  NInst = 600  NSteps = 4  MaxN = 3  MaxM = 2  MaxS = 3
SPECIFICATION Spec
INVARIANTS Tangent Duality Split
CHECK_DEADLOCK FALSE

CONSTANTS R = 2 Steps = 3 Levels = {0, 1, 2} Global = FALSE MaxTrials = 5
SPECIFICATION Spec
INVARIANTS Agree
CHECK_DEADLOCK FALSE

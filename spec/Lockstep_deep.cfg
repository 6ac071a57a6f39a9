CONSTANTS R = 4 Steps = 4 Levels = {0, 1, 2} Global = TRUE MaxTrials = 7
SPECIFICATION Spec
INVARIANTS NoMismatch Agree
CHECK_DEADLOCK FALSE

CONSTANTS R = 3 Steps = 3 Levels = {0, 1, 2} Global = TRUE MaxTrials = 5
SPECIFICATION Spec
INVARIANTS NoMismatch Agree
CHECK_DEADLOCK FALSE

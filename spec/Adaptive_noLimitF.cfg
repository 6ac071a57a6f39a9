CONSTANTS TEnd = 3 Lb = 1 Ub = 4 MaxRep = 2 UseN = 0
 TrialOnCopy = TRUE LimitFirst = FALSE LimitAccepted = TRUE LimitRejected = TRUE AcceptAtLb = TRUE
SPECIFICATION Spec
INVARIANTS OnlyAccepted Histories NeverBeyond HitsEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE

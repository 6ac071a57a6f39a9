CONSTANTS TEnd = 6 Lb = 1 Ub = 4 MaxRep = 2 UseN = 0
 TrialOnCopy = FALSE LimitFirst = TRUE LimitAccepted = TRUE LimitRejected = TRUE AcceptAtLb = TRUE
SPECIFICATION Spec
INVARIANTS OnlyAccepted Histories NeverBeyond HitsEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE

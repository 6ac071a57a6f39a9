CONSTANT MaxChanges = 2
SPECIFICATION Spec
INVARIANTS ValidIsUnique
CHECK_DEADLOCK FALSE

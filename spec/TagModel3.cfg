CONSTANT MaxChanges = 3
SPECIFICATION Spec
INVARIANTS ValidIsUnique
CHECK_DEADLOCK FALSE

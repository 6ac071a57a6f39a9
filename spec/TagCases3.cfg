CONSTANT MaxChanges = 3
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

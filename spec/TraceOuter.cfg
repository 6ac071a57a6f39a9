CONSTANT P = 46337
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

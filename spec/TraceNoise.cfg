SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Judge

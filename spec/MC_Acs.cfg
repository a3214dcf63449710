SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANTS Grows Positive Proportions Slower

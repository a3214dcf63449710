SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANTS AsFunction Whole Early Operand InFront Demo Last Ended Short Honest

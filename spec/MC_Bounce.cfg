SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANTS Causal Linear Constant Level AsFunction Settles Uncoupled Windowed Undone Shrinks

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANTS InBounds Streamed Bounded Positive Flat Level Scale Alike Figures Border

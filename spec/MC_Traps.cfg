SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANT Bounds
INVARIANT Ordered
INVARIANT NeverMoreThanThere
INVARIANT Conserved
INVARIANT PruneConserves
INVARIANT PruneSimplifies
INVARIANT PruneHarmless
INVARIANT SplitInvariant
INVARIANT Mixing
INVARIANT HistoryKnown

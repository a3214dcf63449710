CONSTANT NJobs <- TNJobs
CONSTANT Job <- TJob
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Judge
INVARIANT Bounds
INVARIANT Ledger
INVARIANT Conserved

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NJobs <- TNJobs
Job <- TJob
CONSTRAINT Judge
INVARIANT Bounded

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NonNegative ExactlyItsTransfers OwnDistance Integers NPasses AtOnce Resumes Ordered FirstTransfers InjectionCycles PumpCycles
INVARIANTS OneHigh OneCloud Shares ReleasedIntoCloud Continuous Closed NotTowardsReadout

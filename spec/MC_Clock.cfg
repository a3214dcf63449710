CONSTANT NJobs <- TNJobs
CONSTANT Job <- TJob
CONSTANT IcSpecies <- QIcSpecies
CONSTANT ScSpecies <- QScSpecies
CONSTANT CoSpecies <- QCoSpecies
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
INVARIANTS Bounds Ledger Conserved Window NonNegative
INVARIANTS Composes SerialIsParallel ColumnsAlone Causal Offsets WindowRows WindowOutside Corrects FixedPoint Mixes

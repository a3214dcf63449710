SPECIFICATION SpecT
INVARIANTS JudgeT ModelBounds
CHECK_DEADLOCK FALSE

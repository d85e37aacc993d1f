SPECIFICATION Spec
CONSTANT MaxX = 6
INVARIANTS Neutral Status Nothing
CHECK_DEADLOCK FALSE

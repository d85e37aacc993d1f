SPECIFICATION Spec
CONSTANT MaxCalls = 6
INVARIANTS OneSet Idle SetOwned
PROPERTY Returns
CHECK_DEADLOCK FALSE

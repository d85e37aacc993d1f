SPECIFICATION Spec
CONSTANT MaxCalls = 3
INVARIANTS OneSet Idle SetOwned
PROPERTY Returns
CHECK_DEADLOCK FALSE

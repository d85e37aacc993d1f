SPECIFICATION Spec
CONSTANT L = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT L = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS L = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE

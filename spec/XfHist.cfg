SPECIFICATION Spec
CONSTANTS L = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS L = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE

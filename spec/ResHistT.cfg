SPECIFICATION Spec
CONSTANTS L = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE

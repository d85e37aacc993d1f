SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS Distinct Emit
CHECK_DEADLOCK FALSE

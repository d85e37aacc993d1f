SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Distinct Emit
CHECK_DEADLOCK FALSE

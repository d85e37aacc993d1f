SPECIFICATION Spec
CONSTANTS MaxIter = 0 Vals = {0, 1, 2, 3} Tol = 1
INVARIANTS Best Count StopRule
PROPERTY Ends
CHECK_DEADLOCK FALSE

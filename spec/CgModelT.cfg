SPECIFICATION Spec
CONSTANTS MaxIter = 7 Vals = {0, 1, 2, 3, 4} Tol = 2
INVARIANTS Best Count StopRule
PROPERTY Ends
CHECK_DEADLOCK FALSE

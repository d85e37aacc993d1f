SPECIFICATION Spec
CONSTANTS NMax = 9
 W = 3
 V = 4
INVARIANTS Bounds Once VecDone ParDone
CHECK_DEADLOCK FALSE

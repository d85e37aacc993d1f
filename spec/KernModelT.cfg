SPECIFICATION Spec
CONSTANTS NMax = 14
 W = 4
 V = 4
INVARIANTS Bounds Once VecDone ParDone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS LbIter = 4
 NMax = 5
INVARIANTS Counts Truthful Released
PROPERTY Ends
CHECK_DEADLOCK FALSE

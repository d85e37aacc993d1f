SPECIFICATION Spec
CONSTANTS LbIter = 9
 NMax = 12
INVARIANTS Counts Truthful Released
PROPERTY Ends
CHECK_DEADLOCK FALSE

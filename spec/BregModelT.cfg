SPECIFICATION Spec
CONSTANTS NMax = 4
 MMax = 4
 ItMax = 4
 JacMax = 2
INVARIANTS SeidelReads EverySwept Degrees Done
PROPERTY Ends
CHECK_DEADLOCK FALSE

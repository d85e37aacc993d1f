SPECIFICATION Spec
CONSTANTS NMax = 3
 MMax = 4
 ItMax = 2
 JacMax = 2
INVARIANTS SeidelReads EverySwept Degrees Done
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION LsSpec
CONSTANTS MaxTrial = 32
 Free = 3
INVARIANTS First Kept Bounded Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE

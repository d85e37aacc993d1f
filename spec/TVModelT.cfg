SPECIFICATION Spec
CONSTANTS MaxRows = 5 MaxCols = 4 W = 3
INVARIANTS Product NoSharing
CHECK_DEADLOCK FALSE

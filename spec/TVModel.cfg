SPECIFICATION Spec
CONSTANTS MaxRows = 4 MaxCols = 4 W = 2
INVARIANTS Product NoSharing
CHECK_DEADLOCK FALSE

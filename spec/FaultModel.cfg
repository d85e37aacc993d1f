SPECIFICATION Spec
CONSTANTS NS = 2
 NL = 2
 MaxCalls = 4
INVARIANTS NoDouble Neutral Reported KeepsLive
CHECK_DEADLOCK FALSE

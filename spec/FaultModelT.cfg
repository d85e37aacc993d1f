SPECIFICATION Spec
CONSTANTS NS = 3
 NL = 2
 MaxCalls = 5
INVARIANTS NoDouble Neutral Reported KeepsLive
CHECK_DEADLOCK FALSE

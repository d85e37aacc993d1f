SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NC = 3
 Pauses <- PausesQ
 Static = FALSE
 MaxDepth = 3
INVARIANTS Isolated Stacked Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NC = 3
 Pauses <- PausesQ
 Static = TRUE
 MaxDepth = 3
INVARIANTS Isolated
CHECK_DEADLOCK FALSE

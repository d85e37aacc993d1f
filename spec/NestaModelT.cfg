SPECIFICATION Spec
CONSTANTS K = 3
 Vals = {1, 2, 3}
 NC = 2
 MaxInner = 8
INVARIANTS Window Fresh LastMu
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS K = 3
 Vals = {1, 2}
 NC = 2
 MaxInner = 7
INVARIANTS Window Fresh LastMu
PROPERTY Ends
CHECK_DEADLOCK FALSE

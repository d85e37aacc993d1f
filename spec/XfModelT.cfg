SPECIFICATION Spec
CONSTANTS Tot = 4 NX = 3
INVARIANTS HistoryFree Sparse Conserved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Tot = 3 NX = 2
INVARIANTS HistoryFree Sparse Conserved
CHECK_DEADLOCK FALSE

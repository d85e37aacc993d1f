SPECIFICATION Spec
CONSTANTS Cells = 7
 L = 4
 Slots = {"a", "b", "c"}
INVARIANTS Disjoint Kept Emit
PROPERTY Intact
CHECK_DEADLOCK FALSE

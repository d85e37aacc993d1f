SPECIFICATION Spec
CONSTANTS
  Sinks = {"a", "b", "std"}
  Default = "std"
  Ops = {"cg", "l1qc"}
  Verb = {0, 1}
  L = 5
INVARIANTS Routed Chain Quiet
CHECK_DEADLOCK FALSE

CONSTANTS Depth = 8
  Mut = "none"
  Wide = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

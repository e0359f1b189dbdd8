CONSTANTS Depth = 2
  Mut = "none"
  Wide = FALSE
SPECIFICATION Spec
INVARIANTS FailureChangesNothing SuccessChangesOnlyOutput Functional NoEarlyEffect
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT Principal
CHECK_DEADLOCK FALSE
CONSTANT Size = 2
CONSTANT Top = 5

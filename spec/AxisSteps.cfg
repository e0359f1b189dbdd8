SPECIFICATION Spec
INVARIANT Close
CHECK_DEADLOCK FALSE
CONSTANT Size = 1
CONSTANT Top = 8
CONSTANT Unit = 4

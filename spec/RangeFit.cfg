SPECIFICATION Spec
INVARIANTS AxisOnLine EndsOfLine
CHECK_DEADLOCK FALSE
CONSTANT Top = 2
CONSTANT N = 3

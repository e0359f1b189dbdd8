SPECIFICATION Spec
INVARIANTS Faithful ClearStays ModeSafe MaskedFixed
CHECK_DEADLOCK FALSE
CONSTANT MaxEnd = 3
CONSTANT N = 3

SPECIFICATION Spec
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
CONSTANT Clients = {0, 1, 2, 3}
CONSTANT Kinds = 60
CONSTANT Steps = 40
CONSTANT Most = 3

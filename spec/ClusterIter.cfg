SPECIFICATION Spec
INVARIANTS NotWorse PlainExact Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT Orders = {1, 2, 3}
CONSTANT MaxErr = 2
CONSTANT Limit = 3

SPECIFICATION Spec
INVARIANTS Sums Complete Ascending NoFault
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 10

SPECIFICATION Spec
INVARIANT Pure
PROPERTY Completes
CONSTANT Clients = {1, 2}
CONSTANT Workers = {11, 12}
CONSTANT Calls = 2
CONSTANT RowCount = 2
CONSTANT Kinds = 1
CHECK_DEADLOCK FALSE

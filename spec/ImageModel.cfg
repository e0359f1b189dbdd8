SPECIFICATION Spec
INVARIANT Right ExcessUntouched WrittenOnce Refused NoPanic
CONSTANT MaxW = 9
CONSTANT MaxH = 9
CONSTANT Workers = 2
CONSTANT BS = 2
CHECK_DEADLOCK FALSE

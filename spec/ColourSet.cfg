SPECIFICATION Spec
INVARIANTS Distinct Mapped Weighed Positive ClearIff Stored
CHECK_DEADLOCK FALSE
CONSTANT N = 3
CONSTANT Colours = {1, 2}
CONSTANT Alphas = {0, 127, 128, 255}

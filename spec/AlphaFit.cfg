SPECIFICATION Spec
INVARIANTS NearestValue BetterOfBoth MaskedIgnored Stable Ordered
CHECK_DEADLOCK FALSE
CONSTANT N = 4
CONSTANT Vals = {0, 1, 3, 6, 7, 20, 127, 128, 200, 250, 254, 255}

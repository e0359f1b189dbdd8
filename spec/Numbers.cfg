SPECIFICATION Spec
INVARIANTS QuantNearest QuantExpand ExpandExact ExplicitNearest Ramps Widened Palettes Roots Tolerance Bits
CHECK_DEADLOCK FALSE

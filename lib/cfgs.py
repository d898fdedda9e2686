MAH_MODEL = """SPECIFICATION Spec
CONSTANT Tier = %d
INVARIANTS Frozen NeverAbove Anchor AboutAnchor BetweenIdx RateNonNeg SlopeIsDeriv ShiftInM0
PROPERTY Monotone
CHECK_DEADLOCK FALSE
"""

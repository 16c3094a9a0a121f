SPECIFICATION Spec
INVARIANTS AsAsked InRange OnlyKnown Untouched
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 80 One = 10 Tol = 0 Ms = 1

SPECIFICATION Spec
INVARIANTS Ranges Monotone
PROPERTIES NeverAway StaysInside Settles
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 16 One = 4 Tol = 0

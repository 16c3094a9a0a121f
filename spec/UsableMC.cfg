SPECIFICATION Spec
INVARIANTS AlwaysWorkable ScaleFits
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 10000 Tol = 0 Clamped = TRUE

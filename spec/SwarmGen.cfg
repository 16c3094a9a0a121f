SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 100 Tol = 0

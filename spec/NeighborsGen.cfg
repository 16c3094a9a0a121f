SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 2 Tol = 0

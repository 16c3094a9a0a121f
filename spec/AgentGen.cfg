SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 8  One = 2  Tol = 0  MaxEn = 3  Hi = 5

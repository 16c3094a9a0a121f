SPECIFICATION Spec
INVARIANTS TypeOK OneQuantity AllOrNothing
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 3  One = 2  Tol = 0  MaxEn = 2  Hi = 4

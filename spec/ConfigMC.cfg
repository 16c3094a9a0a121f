SPECIFICATION Spec
INVARIANTS Repairs HopelessStays ValidNotHopeless Idempotent Untouched
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 2 Tol = 0 Sizes = {0, 1, 2, 3}

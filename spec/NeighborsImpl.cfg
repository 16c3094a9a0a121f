SPECIFICATION Spec
INVARIANTS Refines NoDup NoSelf CountOK
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 2 Tol = 0 Ids = {1, 2, 3, 4, 5} Cap = 3

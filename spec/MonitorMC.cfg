SPECIFICATION Spec
INVARIANTS Refines Sane
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 10 Tol = 0 Vals = {0, 5, 7, 10} Thr = 7 Horizon = 3 Steps = 5

SPECIFICATION Spec
INVARIANTS Linearizable NoOverspend
PROPERTY EventuallyDone
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4  One = 2  Tol = 0  Progs <- ProgsA  RetryOnConflict = TRUE

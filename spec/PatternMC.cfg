SPECIFICATION Spec
INVARIANTS Bounded ZeroIffEqual Positive Symmetric Closer
PROPERTIES NoOvershoot
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 24 One = 100 Tol = 0 MaxF = 7

SPECIFICATION Spec
INVARIANTS Bounds Conserved ReqOK
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 2 Tol = 0 MaxB = 6 Hi = 8

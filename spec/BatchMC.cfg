SPECIFICATION Spec
INVARIANTS Conserved Bounded Counted Shared
PROPERTY Drains
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 10 Tol = 0 Max = 3 Cap = 2 Sizes = {1, 2, 3, 4, 7} Tasks = 9

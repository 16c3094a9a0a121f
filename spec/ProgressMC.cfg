SPECIFICATION Spec
INVARIANTS WindowKept Bounded Sane SteadyConverges RisingDoesNot
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 4 One = 1000 Tol = 0 Dists = {0, 500, 501, 503, 1000} Dts = {1000} W = 3 Steps = 7

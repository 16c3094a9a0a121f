SPECIFICATION Spec
INVARIANTS Bounded Recovers
PROPERTIES Spaced OnlyWhenNeeded OnlyAchieved
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 6283185 One = 1000000 Tol = 0 Mg = 0 C = 2 U = 3 Gap = 5 Fac = 200 Horizon = 24

SPECIFICATION Spec
INVARIANTS Total Arrives Sober
PROPERTIES Gathered
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 6283188 One = 1000000 Tol = 0 Mg = 0 Ts = 0 N = 3 Away = 0 Goal = 900000 Size = 30

SPECIFICATION Spec
INVARIANTS NeverAway NoOvershoot OncePerPeriod
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 12 One = 4 Tol = 0 Period = 2 Horizon = 6

SPECIFICATION Spec
INVARIANTS InRange Fair Likely TakesAsSaid
CHECK_DEADLOCK FALSE
CONSTANTS M = 15 K = 5

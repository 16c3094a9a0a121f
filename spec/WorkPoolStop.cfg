SPECIFICATION Spec
INVARIANTS Once Limit Finished Quiet QuietStop
PROPERTIES EndsAll
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 Jobs = {1, 2, 3, 4} Cap = 2 Slow = {2, 3} MayStop = TRUE
TwoPi = 24 One = 10 Tol = 0

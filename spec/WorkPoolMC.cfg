SPECIFICATION Spec
INVARIANTS Once Limit Finished Quiet QuietStop
PROPERTIES AllRun Accepted
CHECK_DEADLOCK FALSE
CONSTANTS W = 2 Jobs = {1, 2, 3, 4, 5} Cap = 2 Slow = {2} MayStop = FALSE
TwoPi = 24 One = 10 Tol = 0

SPECIFICATION Spec
INVARIANTS Current Rate Alike Shares Rise
PROPERTIES PausedKeeps
CHECK_DEADLOCK FALSE
CONSTANTS TwoPi = 628 One = 200 Tol = 0 RadN = 1 RadD = 10

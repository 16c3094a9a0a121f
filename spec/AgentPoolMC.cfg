SPECIFICATION Spec
INVARIANTS OneOwner Counters InUse
PROPERTIES CleanOnTake
CHECK_DEADLOCK FALSE
CONSTANTS Owners = {1, 2, 3} MaxA = 3 MaxT = 5
TwoPi = 24 One = 10 Tol = 0

SPECIFICATION Spec
INVARIANTS OneDriver Frozen Ends FlagKept FlagEnds
CHECK_DEADLOCK FALSE
CONSTANTS Runs = 4 Limit = 3 Horizon = 6

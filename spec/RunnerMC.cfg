SPECIFICATION Spec
CONSTANTS Keys = {"quit", "pause", "resume", "reset", "tiny", "small", "batch", "load", "none"}
 QCap = 2 MaxKeys = 5 MaxRuns = 3
INVARIANTS Agrees Reported OneKindEach
PROPERTIES SignalEnds QuitEnds Drained

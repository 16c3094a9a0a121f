SPECIFICATION Spec
CONSTANTS Pat = "high" Unit = 25 MaxPend = 9
INVARIANTS Sizes Rhythm Calm ShownRight
PROPERTIES Accumulate Still
CHECK_DEADLOCK FALSE

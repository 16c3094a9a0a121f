SPECIFICATION Spec
CONSTANTS Pat = "steady" Unit = 50 MaxPend = 9
INVARIANTS Sizes Rhythm Calm ShownRight
PROPERTIES Accumulate Still
CHECK_DEADLOCK FALSE

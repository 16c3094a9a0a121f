SPECIFICATION Spec
CONSTANTS Pat = "sparse" Unit = 500 MaxPend = 9
INVARIANTS Sizes Rhythm Calm ShownRight
PROPERTIES Accumulate Still
CHECK_DEADLOCK FALSE

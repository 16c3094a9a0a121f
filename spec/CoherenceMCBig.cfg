SPECIFICATION Spec
INVARIANTS InUnit OneIffEqual RotInv OrderInv ConvSound
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 MaxW = 1

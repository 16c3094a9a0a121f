SPECIFICATION Spec
INVARIANTS InUnit OneIffEqual RotInv OrderInv ConvSound
CHECK_DEADLOCK FALSE
CONSTANTS N = 3 MaxW = 2

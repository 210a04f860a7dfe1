CONSTANTS
P = 3
MaxLen = 6
Caps = {0, 1, 2}
INIT Init
NEXT Next
INVARIANTS Refines BufferOK SqueezeOK
CHECK_DEADLOCK FALSE

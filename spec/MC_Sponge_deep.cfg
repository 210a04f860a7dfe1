CONSTANTS
P = 5
MaxLen = 6
Caps = {0, 1, 4}
INIT Init
NEXT Next
INVARIANTS Refines BufferOK SqueezeOK
CHECK_DEADLOCK FALSE

CONSTANTS
Depth = 4
PadControls = TRUE
Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Aligned
INVARIANT NoOverhang
INVARIANT Emit
CHECK_DEADLOCK FALSE

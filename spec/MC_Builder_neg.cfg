CONSTANTS
Depth = 3
PadControls = FALSE
Emitting = FALSE
INIT Init
NEXT Next
INVARIANT Aligned
INVARIANT NoOverhang
INVARIANT Emit
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Genuine
INVARIANT Mark
ALIAS Alias
CHECK_DEADLOCK FALSE

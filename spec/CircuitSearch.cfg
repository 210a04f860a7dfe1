INIT Init
NEXT Next
INVARIANT Genuine
INVARIANT Mark
POSTCONDITION Inhabited
ALIAS Alias
CHECK_DEADLOCK FALSE

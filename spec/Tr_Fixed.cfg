INIT Init
NEXT Next
INVARIANT Accepted
ALIAS Alias
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE

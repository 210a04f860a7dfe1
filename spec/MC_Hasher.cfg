CONSTANTS
Clients = {"a", "b", "c"}
Calls <- CallSet
MaxCalls = 1
ShareTemplate = FALSE
SPECIFICATION Spec
INVARIANTS Pure Pristine OneInit
PROPERTY EveryCallReturns
CHECK_DEADLOCK FALSE

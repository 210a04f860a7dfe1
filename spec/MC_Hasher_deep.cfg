CONSTANTS
Clients = {"a", "b", "c"}
Calls <- CallSet
MaxCalls = 2
ShareTemplate = FALSE
SPECIFICATION Spec
INVARIANTS Pure Pristine OneInit
CHECK_DEADLOCK FALSE

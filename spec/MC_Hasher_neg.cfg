CONSTANTS
Clients = {"a", "b"}
Calls <- CallSet
MaxCalls = 1
ShareTemplate = TRUE
SPECIFICATION Spec
INVARIANTS Pure
CHECK_DEADLOCK FALSE

CONSTANTS
Prime = 5
MaxRows = 2
Step = 1
WordSet = {0, 1}
DomSet = {0, 2}
INIT Init
NEXT Next
INVARIANT Same
INVARIANT NoRevival
CHECK_DEADLOCK FALSE
